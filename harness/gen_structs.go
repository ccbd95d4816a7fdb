// Code generated by tools/genstructs.py 1 420; DO NOT EDIT.

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
)

var _ json.Number

type GNum int
type gnum int
type GStrs []string
type gmap map[string]int
type GIface interface{}
type GFace interface{ GNever() }
type gface interface{ gnever() }
type GHook struct{ H int }

func (h GHook) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"hook":%d}`, h.H)), nil }
func (h *GHook) UnmarshalJSON(b []byte) error { h.H = len(b); return nil }

type G0 struct {
	ID uint64 
}

type G1 struct {
	Name bool `json:"A,string,string"`
	ID [2]int 
	Id string 
}

type g2 struct {
	X []string 
	AB bool 
	ID NStr `json:"0,omitempty,string"`
	Id int `json:"-"`
	Ks int64 
	id NStr `json:"aA,string,omitempty,string"`
	K JInt `xml:"x" json:"b"`
}

type G3 struct {
	ID [0]int `json:"a-b,omitempty"`
	AB NInt 
}

type g4 struct {
	Y int8 
	x uint64 `json:",omitempty"`
	S string 
}

type g5 struct {
	b bool `json:"ß"`
	X uint8 
}

type g6 struct {
	AB NStr `json:"-"`
	B int64 `json:"a.b"`
}

type g7 struct {
	ID float32 `json:"D,omitempty"`
	C bool `json:"aA,string,omitempty"`
	AB NStr `json:"-,"`
	B JInt 
	x float32 `json:"name,omitempty"`
	Aa float64 `json:"-"`
}

type g8 struct {
	Ks uint64 `json:"b,omitempty,string"`
	S TStr 
	b NStr 
	ID uint64 
}

type G9 struct {
	K NStr 
}

type G10 struct {
	S int `json:",omitempty"`
	k int 
}

type g11 struct {
	b float32 
	ID uint64 `json:",omitempty"`
	id float64 
	c int64 `json:"x y,omitempty,string"`
}

type g12 struct {
	Ks float32 
	AB string 
	Name int `json:"k,omitempty"`
}

type G13 struct {
	C string 
	S NInt `json:",omitempty,string"`
	Aa int `json:"\"q\""`
	AA uint64 
}

type G14 struct {
	X map[string]int `json:"b"`
	AB string 
}

type G15 struct {
	C float32 
}

type G16 struct {
	É NStr 
	Aa string 
	ID string `json:"a,omitempty"`
}

type g17 struct {
	Ks string `json:"K"`
	C uint64 `json:a`
	AB []byte 
	AA int64 `json:"c"`
	S uint8 
	B map[string]*NInt `json:",omitempty"`
}

type g18 struct {
	C *bool `json:"0"`
	Name map[string]int `json:"id,omitempty"`
}

type G19 struct {
	A string `json:"a"`
}

type G20 struct {
	S float32 `json:"-"`
	Id int8 
}

type G21 struct {
	D uint64 
	X float32 `json:",omitempty"`
}

type G22 struct {
	D int8 `json:"a-b,omitempty"`
	ID uint8 
	c float32 
	É []byte `json:"a.b,omitempty"`
}

type g23 struct {
	C map[string]*NInt `json:"é"`
	ID uint64 
	A float64 `json:",omitempty"`
	AA int8 `xml:"x" json:"b"`
}

type G24 struct {
	AA int64 
	X string `json:"x y,omitempty,string"`
}

type G25 struct {
	X float32 
	Ks uint64 
}

type g26 struct {
	A JInt 
	S [2]int 
	Name map[string]int `json:"a.b,omitempty"`
	X uint64 
	b int64 `json:"k,omitempty"`
	id NInt 
}

type G27 struct {
	Name uint8 `json:",omitempty"`
	S float64 `json:"\"q\""`
	k int `json:"0"`
	Aa *int 
	B NStr 
	X int 
}

type G28 struct {
	Aa int64 
}

type g29 struct {
	S float32 `json:"ſ"`
	B float64 `json:"a-b,omitempty"`
}

type g30 struct {
	b int 
	B *string 
	c int 
	id string 
	Y int 
	S float64 `json:"0"`
	AB float64 `json:"0"`
}

type g31 struct {
	A []byte `json:"0"`
	B bool `json:"x y,omitempty"`
}

type G32 struct {
	S int8 `json:"-"`
	B map[string]int 
	Name NStr `json:"aA,omitempty"`
	É int64 
	C int `json:"aA"`
	X string `json:"k,omitempty"`
}

type g33 struct {
	S *TStruct 
	Ks []int 
	É *string 
}

type g34 struct {
	A NInt 
}

type G35 struct {
	X NInt 
	É []byte `json:"-"`
	AA bool 
	A []int `json:",omitempty"`
	Ks uint64 
	Id string 
	b bool 
}

type G36 struct {
	X *TStruct `json:"name,omitempty"`
	É int 
}

type G37 struct {
	c string `json:"-,"`
	A []int `json:"-"`
}

type G38 struct {
	D *float64 
	B uint64 
}

type g39 struct {
	Ks uint8 
	ID NStr `json:"a.b,omitempty"`
	AB json.Number `json:"<t>"`
}

type G40 struct {
	D struct{} `json:"\x01"`
	É NInt `json:",omitempty"`
	Ks int64 
}

type g41 struct {
	Aa int `json:"a" json:"b"`
	AB json.Number `json:"A,omitempty"`
}

type G42 struct {
	AA float32 
}

type G43 struct {
	A uint64 
	C int64 
	Y **int `json:"a,omitempty"`
	k string `json:"c,omitempty"`
}

type G44 struct {
	aa float64 `json:"k,string,omitempty"`
	D TStr 
	C float32 
	X NInt 
	K string `json:"a,omitempty"`
	A NStr 
	Aa float32 `json:"x y,omitempty"`
	ID []string `json:"é"`
}

type G45 struct {
	Name int 
	A uint64 
	b NInt `xml:"x" json:"b"`
	Ks int64 
	Id string 
	id float64 `json:"-"`
	B NStr `json:"-"`
}

type g46 struct {
	Aa int 
	x string `json:"x y,string"`
}

type G47 struct {
	K int 
}

type g48 struct {
	S string 
	A float32 
	X map[string]int 
}

type G49 struct {
	aa uint64 
}

type G50 struct {
	Y float32 
	AA interface{} 
}

type G51 struct {
	AB [0]int `json:"a-b,omitempty"`
	B uint8 
}

type G52 struct {
	X int8 
	Y uint64 `json:"a.b"`
	Ks **int 
	AA uint64 `json:"<t>,omitempty,string"`
	Name int 
	AB int `json:"id"`
	C string `json:"id"`
	Aa float64 `xml:"a"`
	k float64 
	D []string `json:"k"`
	ID float32 `json:"-,"`
}

type G53 struct {
	É bool `json:"ß"`
	B int8 
}

type g54 struct {
	C float32 `json:",string"`
	ID [0]int 
}

type g55 struct {
	Id int8 `json:"name,omitempty"`
	S int 
	D int `json:"x y,omitempty"`
	Ks float32 
}

type G56 struct {
	AA float64 
	D uint8 
}

type G57 struct {
	B int64 
	S JInt `json:"K,omitempty"`
}

type g58 struct {
	S string 
	X uint64 `json:",string"`
}

type g59 struct {
	B int `json:"aA,string"`
	É interface{} `json:"A"`
	Name [2]int `json:"ks,omitempty"`
	A int `json:"ß,string"`
}

type g60 struct {
	x string 
	Id float64 
	AA string `json:"ſ,string,omitempty"`
	a float32 `json:"D"`
}

type g61 struct {
	Ks *bool `json:"ß"`
	S **int 
}

type g62 struct {
	Name string 
}

type G63 struct {
	S *float64 `json:"a,omitempty"`
	B [2]int `json:"c,omitempty"`
	K int `json:",omitempty"`
	X uint8 `json:"-"`
	AB *TStruct `json:"K,omitempty"`
	Aa int64 `json:",string"`
}

type g64 struct {
	É int `json:",string"`
	S uint8 
	AA string 
	a string 
}

type G65 struct {
	a int 
	A *float64 
	S string 
	Name int 
	AA NInt `json:",omitempty,string"`
	k float64 `json:"ks,omitempty,string"`
}

type G66 struct {
	É string 
	ID JInt 
	Ks json.Number `json:"A,omitempty"`
	X float64 `json:"ks,omitempty"`
	Aa string `json:"-"`
	S struct{} 
}

type G67 struct {
	Id int8 `json:",string"`
	AB TStr `json:"<t>"`
}

type g68 struct {
	ID int 
	c int64 `json:"B,omitempty"`
	É int8 `json:"a.b,string"`
	Aa string `json:"name,omitempty,string"`
	AB int `json:"-"`
	A string 
}

type G69 struct {
	Id string `json:"-,"`
}

type g70 struct {
	*g41 
	g46 `json:"D,omitempty"`
	X int 
	S float64 
	*G72 
	AB uint8 `json:"name,string"`
}

type G71 struct {
	gmap `json:"ks"`
	X int `json:"-"`
	B float64 `json:",string,omitempty"`
	Y map[string]int 
	AB bool `json:"x y,omitempty"`
	Name int8 `json:"id,omitempty"`
	AA int8 `json:"-"`
	b NStr `json:"-"`
	S string `json:"b,string"`
	D string 
	Ks [0]int 
	*G72 
}

type G72 struct {
	ID json.Number `json:"A"`
	Y float64 `json:"a-b"`
	g41 
	g46 `json:"k"`
}

type g73 struct {
	g68 `json:"id"`
}

type g74 struct {
	*G28 `json:"x y"`
	X []string `json:"-"`
	*g74 
	AA uint64 
	S string 
	*G79 
	*g59 
}

type g75 struct {
	Ks int `json:"a-b"`
	G56 
	aa string `json:"a"`
	D uint64 `json:"0,omitempty"`
}

type G76 struct {
	AB string 
	ID int8 `json:"A,omitempty"`
	aa uint64 
	*G76 
	É uint64 
	Aa int64 `json:"b,omitempty"`
}

type G77 struct {
	*g55 
}

type G78 struct {
	Id int 
	b int `json:"a"`
	g74 
	*G3 
	g55 `json:"ks,omitempty"`
	AA int64 `json:"ſ"`
	É *float64 `json:"k,omitempty"`
}

type G79 struct {
	Aa int8 `json:"ſ"`
	G47 
}

type G80 struct {
	aa NInt 
	*G40 
	gface 
}

type G81 struct {
	*g55 
	S int `json:"K"`
}

type G82 struct {
	g39 `json:"k"`
	g34 
}

type G83 struct {
	G0 
	G43 
	ID int8 `json:"k"`
	*G63 
	*g61 
}

type g84 struct {
	aa NStr `json:"-"`
	G56 
	G72 `json:"a"`
	D TStr `json:"-"`
	É JInt 
	ID int8 
}

type G85 struct {
	*G42 `json:"ſ"`
}

type G86 struct {
	*g73 
	AB bool `json:"a-b,string,omitempty"`
	*g29 
	*G89 
}

type g87 struct {
	g39 
	*G57 
	Name int64 `json:"K"`
	g54 
	*g34 
}

type g88 struct {
	K map[string]*NInt 
	C NInt `json:"a"`
	G63 
	ID string `json:"a"`
	É int64 `json:"a.b,string"`
	*g88 
	B string 
	A **int 
	AA string 
	D JInt `json:"x y"`
}

type G89 struct {
	K JInt `json:",omitempty"`
	g48 
	k int8 `json:"k"`
	G86 
}

type G90 struct {
	ID int `json:"é,omitempty"`
	G57 
}

type g91 struct {
	GStrs 
	G90 
	*g62 
	x string 
}

type G92 struct {
	*G93 
	É bool `json:"-"`
	k int64 `json:"D,omitempty"`
	S uint8 `json:"<t>"`
	K bool 
	ID string 
	Ks int 
	D uint8 
	aa NInt `json:"a,omitempty,string"`
	Name int 
	Id uint8 `json:"-"`
	AA string `json:"<t>,string"`
}

type G93 struct {
	G50 
	G65 
	*g41 
	*G83 
	Y int `json:"B"`
}

type G94 struct {
	*G50 
	B bool 
	A *bool 
	x float64 `json:",omitempty"`
	D uint8 
	X NInt `json:"aA"`
	Aa [0]int `json:"ſ"`
	K string `json:"aA,omitempty"`
}

type g95 struct {
	a int `json:"ß"`
	ID int `json:"é"`
	g46 
	Aa **int 
}

type g96 struct {
	G45 
	Name []string 
	*G40 
	*G63 
	É uint64 `json:"-,"`
}

type G97 struct {
	*g41 
	S int8 `json:"a,omitempty"`
	K int `json:"-"`
	D *int `json:"x y"`
}

type G98 struct {
	X uint8 
	aa string `json:"name"`
	AA int64 `json:"é"`
	*G80 
	S int 
	Ks bool 
	G42 
}

type G99 struct {
	gnum `json:"x y,omitempty"`
	K NStr 
	*G66 
	S uint64 
}

type G100 struct {
	*G44 
	C float64 `json:"aA,string"`
	S uint64 `json:"-"`
	AA bool `json:"0"`
	*g46 
	GHook `json:"ſ"`
}

type G101 struct {
	G100 
	*g105 
}

type G102 struct {
	ID string `json:"B"`
	G24 
	*G50 
	*gnum 
}

type G103 struct {
	G67 `json:"K"`
	S map[string]*NInt `json:",omitempty"`
	a uint64 `json:"a\\b"`
}

type G104 struct {
	G100 
	G37 
	g46 
	*G104 `json:"b"`
}

type g105 struct {
	*G66 
	G80 
	Aa int 
	*G67 `json:"b"`
	*g18 
}

type G106 struct {
	G86 
	K [2]int 
}

type G107 struct {
	*G47 
	G66 
	É int64 `json:"-"`
	*g59 
	Name string `json:"K,omitempty"`
}

type G108 struct {
	*g6 
	Name float64 
	G66 `json:"a,omitempty"`
	G47 
	É uint8 `json:"a,string"`
}

type g109 struct {
	B NInt 
	AA struct{} 
	X int8 
	D uint64 `json:"b,string"`
	É int64 
	Aa json.Number `json:",omitempty"`
	C uint8 
	Id float32 
	ID []byte `json:"k"`
	g31 
	S [0]int `json:"c"`
	*g54 
}

type G110 struct {
	Id []int 
	G38 
	Aa string `json:"A,omitempty,string"`
}

type g111 struct {
	*g59 
	*g111 
	*G49 `json:"K"`
	*G20 `json:"-"`
}

type g112 struct {
	G53 
	*g54 
	C int8 `json:"-"`
	*G80 
}

type g113 struct {
	G83 `json:"B,omitempty"`
	B interface{} `json:"A,omitempty"`
	Name struct{} `json:"B"`
	g11 
}

type G114 struct {
	K int64 `json:"a-b,string,omitempty"`
	G72 `json:"c"`
	S string 
	*G102 
	ID bool `json:"A,string"`
	*G114 
}

type g115 struct {
	g59 
	Name uint8 
	c int64 `json:"é"`
}

type g116 struct {
	G45 
	AB *bool 
	G22 
	Aa uint64 
	*G102 
	Id uint8 
	G82 
}

type G117 struct {
	K uint8 `json:"0,omitempty,string"`
	É NInt 
	AA NInt `json:"-,"`
	B bool `json:"é,string"`
	*G65 `json:"b"`
	Y float64 `json:"é,string,omitempty"`
	G81 
}

type g118 struct {
	É int8 `json:"a,omitempty"`
	G65 `json:"b"`
	Id uint64 `json:",omitempty"`
	g12 
	Y []int 
	C int8 `json:",omitempty"`
	g41 `json:",omitempty"`
}

type G119 struct {
	G10 
	É NInt `json:"D"`
	G47 
	G56 
	*g39 
	Y map[string]int `json:"c"`
}

type g120 struct {
	AA uint8 
	*g120 
	A *string 
	AB string 
	*g111 
	X uint64 
	c string `json:"x y,omitempty,string"`
	Ks int8 
	k string `json:"aA,omitempty,string"`
	Aa []byte 
	D []byte `json:",omitempty"`
	G103 
	*g60 
}

type G121 struct {
	S string `json:"A"`
	K [2]int 
	G100 
	k string `json:"A"`
	Ks *bool `json:"A"`
	b string 
	Id int 
	Name *float64 `json:"a.b,omitempty"`
	*G80 
	C **int 
}

type G122 struct {
	*G83 
	G66 
	k int64 
}

type G123 struct {
	Aa NInt 
	G71 
	Ks NInt 
	G19 
	C NInt 
	AB TStr `json:"-,"`
}

type G124 struct {
	G98 
	G81 
	*G124 
	g54 
}

type G125 struct {
	Id string `json:"é,omitempty"`
	S int8 `json:"b,omitempty"`
	D []string `json:",omitempty"`
	Aa map[string]*NInt `json:",omitempty"`
	*g48 
	x float64 
	É float64 
}

type G126 struct {
	G83 
	B int 
	G52 `json:",omitempty"`
	*G77 
	K float32 `json:"id,string"`
	g59 
}

type g127 struct {
	g61 
	Ks map[string]*NInt `json:"-,"`
	D int64 `json:",string"`
}

type G128 struct {
	Y int `json:"<t>,omitempty"`
	Name []byte `json:"ks,omitempty"`
	*G128 
}

type g129 struct {
	b int64 `json:"x y,omitempty,string"`
	ID int `json:"a,omitempty"`
	*G16 
	Aa uint64 
}

type g130 struct {
	É NInt 
	g54 
	Y int 
}

type G131 struct {
	g64 
	a int8 `json:",omitempty"`
	Aa int8 `json:",omitempty"`
	K int 
	G102 `json:"a"`
	*G66 
	X int64 `json:"0"`
	A uint64 `json:"aA,string"`
	Y bool `json:",omitempty,string"`
}

type g132 struct {
	G14 
	G3 
}

type G133 struct {
	*g111 
	S *TStruct 
	GNum `json:",omitempty"`
	AA int 
	G79 
	C string 
}

type g134 struct {
	C string 
	Id []int 
	K NInt 
	g109 `json:"-"`
}

type G135 struct {
	S [0]int `json:"name"`
	Ks float32 
	B float32 
	Aa string `json:"x y,string"`
	AB uint64 `json:"K,omitempty,string"`
	D uint8 
	*G128 
}

type G136 struct {
	g29 
	Y **int 
	S *int `json:",omitempty"`
	Ks uint8 `json:"ſ,omitempty"`
	G43 
	g30 
}

type g137 struct {
	*G138 
	Y NInt `json:"D"`
	k int8 
	g59 `json:"0,omitempty"`
	*G67 `json:",omitempty"`
	AA int8 
}

type G138 struct {
	C int 
	G104 
	g95 
}

type G139 struct {
	C int 
	AB int `json:"-"`
	a string `json:",,omitempty"`
	G69 
	id NInt `json:",omitempty,string"`
	ID *string 
}

type g140 struct {
	*G97 
	g118 `json:"a.b"`
	g111 
	*g140 
}

type G141 struct {
	C int 
	Id uint8 `json:",omitempty"`
	AB [0]int 
	GHook 
	Y float64 `json:"-"`
	x int8 `json:"a,omitempty"`
	*G43 
}

type G142 struct {
	g137 `json:"é"`
	B int64 `json:"ß,omitempty"`
	S struct{} 
	G125 
	*g143 
}

type g143 struct {
	Ks uint64 
	X NInt `json:"aA"`
	*g73 
	S int `json:"ks,omitempty,string"`
}

type G144 struct {
	Id string `json:",string"`
	*g61 
	C float32 `json:",omitempty"`
	k NInt 
	*g62 
	Name string `json:"id"`
}

type G145 struct {
	X NInt `json:"aA"`
	Name NStr 
	ID float64 `json:"b,string"`
	B int64 `json:"-,"`
	*G139 
	G16 
	Y *bool `json:"name"`
	G99 `json:"aA,omitempty"`
}

type G146 struct {
	X bool 
	*G146 
	S []byte 
	A float64 `json:"D,omitempty,string"`
	Y uint8 `json:",omitempty"`
	G69 
	g11 `json:"a\\b"`
	É int8 `json:",omitempty"`
}

type G147 struct {
	Id **int `json:",omitempty"`
	B bool `json:"-,"`
	AB int `json:"é,omitempty"`
	É float32 `json:"id"`
	*G144 
	Ks *int `json:"-,"`
	ID int 
	*g127 
	AA int64 
	C string 
}

type g148 struct {
	g59 
	c int `json:"b,omitempty,string"`
	ID map[string]int `json:"id"`
	D uint8 `json:"-"`
	B string `json:"a.b,string"`
	k bool `json:"é,string"`
	gnum 
	AA *int `json:"c"`
	C int8 `json:"-"`
	Name int 
	A JInt 
	Ks []string 
}

type G149 struct {
	Name *float64 `json:"-,"`
	g109 
	g62 
	g41 `json:"ſ,omitempty"`
}

type G150 struct {
	K float64 
	G80 
	G141 
	G81 
	B *int 
}

type g151 struct {
	AB uint8 
	*G119 
	C NInt `json:"a-b,string"`
	Y NInt `json:"k"`
}

type g152 struct {
	G66 
	G69 
	D bool 
	x float64 
}

type G153 struct {
	*g113 
	*G153 
	Name [2]int 
	S int `json:"D,omitempty"`
	C *float64 
	AA bool 
	g152 
	ID map[string]*NInt 
	*G106 `json:"-"`
	K string `json:",omitempty,string"`
}

type G154 struct {
	AB map[string]int `json:"-"`
	k bool 
	*g143 
	*g33 
	K **int `json:"B,omitempty"`
	X int64 
	B interface{} `json:"name"`
	Id int `json:"k"`
	*G102 
	D int `json:"ks,omitempty"`
	ID string 
	Name string `json:"id"`
}

type g155 struct {
	Aa float32 `json:"k,omitempty"`
	K bool 
	*g68 
	a float64 
}

type g156 struct {
	D int8 `json:",omitempty"`
	AB uint64 `json:"ß,string"`
	*G49 
	B float32 
	g58 
}

type G157 struct {
	Id []string `json:"a.b,omitempty"`
	g155 `json:",omitempty"`
	gnum 
	g48 
	ID NInt `json: "a"`
	*G125 
	a string `json:",omitempty"`
}

type g158 struct {
	*G163 
}

type G159 struct {
	x NStr `json:"a"`
	g54 
	*G159 `json:"-"`
	*g59 
	AA **int 
	Aa float32 `json:"id"`
	K string 
	B *string `json:"<t>"`
}

type G160 struct {
	B NInt `json:"a"`
	AA *TStruct 
	*g156 
}

type G161 struct {
	ID int 
	*G161 
	AB float64 
	G141 
	Aa float32 `json:"a,omitempty"`
	Name int64 `json:"K,string"`
	Y []string `json:"A"`
	B int `json:"-,"`
}

type g162 struct {
	g155 `json:",omitempty"`
	GHook 
	Id NInt `json:"ſ"`
}

type G163 struct {
	*G163 `json:"a,omitempty"`
	AA [2]int 
	*g167 
	Aa NInt 
	A struct{} 
}

type G164 struct {
	*g158 
	Aa float64 
	Ks int64 `json:"ß,string,omitempty"`
}

type G165 struct {
	g156 `json:"b,omitempty"`
}

type G166 struct {
	K *TStruct 
	*G171 
	G35 
	Aa *string `json:"<t>,omitempty"`
}

type g167 struct {
	S uint8 `json:"-"`
	g151 
}

type g168 struct {
	G42 
	G56 
	AB int `json:",string"`
	x NStr 
	AA NStr 
}

type G169 struct {
	Id int `json:"D"`
	X uint8 `json:"a,omitempty,string"`
	id NStr 
	g130 `json:"a\\b"`
}

type g170 struct {
	gnum 
	D string 
	Aa **int `json:"B"`
	Id int 
	*g170 
}

type G171 struct {
	ID string `json:"aA,omitempty"`
	g140 
	G102 
	x int 
	g130 
	gnum 
	D NInt `json:"x y,omitempty,string"`
	A NStr `json:",string"`
}

type g172 struct {
	g143 
	É int8 `json:",string"`
	Y string 
	B TStr 
	*G125 
}

type G173 struct {
	*g59 
	AB int `json:a`
	g23 `json:"K,omitempty"`
	Name bool 
	G56 
}

type G174 struct {
	*g178 
	Id float64 
}

type g175 struct {
	G133 
	g140 `json:"A,omitempty"`
}

type G176 struct {
	G147 
}

type G177 struct {
	C *bool `json:"-,"`
	*G43 
	ID float32 `json:"é"`
}

type g178 struct {
	*G119 `json:"a\\b"`
	C int64 
	G146 
}

type G179 struct {
	g34 
	S int `json:"c"`
	*G53 `json:",omitempty"`
	Aa NInt `json:"id,string"`
	GNum `json:"a\\b"`
	G119 
}

type g180 struct {
	*g180 
	gnum 
}

type G181 struct {
	G141 
	*g118 
	AB int 
}

type g182 struct {
	gface 
	B NInt `json:",string"`
	Id float64 
	C [2]int 
	*G43 
	S TStr 
	*G184 
}

type G183 struct {
	g162 
	g148 
	*G66 
	G149 
}

type G184 struct {
	*g111 
}

type G185 struct {
	D int8 
	Id **int 
	G42 
	C int8 
	B interface{} `json:"D"`
}

type g186 struct {
	*g178 
	g175 
	*g189 
	*g151 
}

type G187 struct {
	Ks *string `json:"D"`
	k int 
	Name int `json:"é,omitempty"`
	AB int64 
	AA NInt `json:"name,string,omitempty"`
	*G45 `json:"a\\b"`
	*g17 
	aa int 
	A NStr `json:",string"`
	Id int64 `json:"D,omitempty"`
	S *string `json:",omitempty"`
	Aa int `json:"b,omitempty"`
	X NInt 
	C []string 
}

type G188 struct {
	G183 
	x int8 
	*G146 `json:"a"`
	GFace 
	id uint8 `json:"b"`
	gface 
}

type g189 struct {
	ID float32 `json:"a.b,string"`
	*g111 
	G97 
	g2 
}

type G190 struct {
	AA NInt `json:"K"`
	G149 
	Name *float64 `json:"k,omitempty"`
}

type G191 struct {
	G67 `json:"-"`
	G53 
	G45 
	G66 `json:"-"`
}

type G192 struct {
	g88 
	Ks *bool `json:",omitempty"`
	*G83 
	g30 
}

type g193 struct {
	AA int64 `json:"id,omitempty"`
	*G100 `json:"c"`
	X float64 `json:"a.b,omitempty,string"`
}

type G194 struct {
	b float64 
	*G44 
	G25 
	*G43 
	G0 
	Y *string `json:"-"`
	X int `json:"a" json:"b"`
	AA NInt 
}

type g195 struct {
	*g152 
	GHook `json:"-"`
	G81 
}

type G196 struct {
	K string 
	ID *string 
	*g199 
	g6 
	*G43 
}

type G197 struct {
	G15 
	AA int64 
}

type g198 struct {
	G177 `json:"-"`
	*G203 
}

type g199 struct {
	*G49 
	k string `json:",string"`
	*G13 
	G51 
	D string 
}

type G200 struct {
	*g130 
	Name float64 `json:"-"`
	g199 
	g168 
	*G125 
}

type g201 struct {
	*g206 
	*G56 
	gmap 
}

type G202 struct {
	G67 `json:"A,omitempty"`
	Name string 
	g61 
}

type G203 struct {
	*GNum `json:"K"`
	S uint8 
	c string 
	g46 
	B int64 `json:"x y"`
}

type G204 struct {
	G43 `json:",omitempty"`
	X map[string]*NInt `json:"<t>"`
	Ks float32 `json:"-"`
	A *TStruct 
	S int `json:"b"`
	G32 
	G3 
	G53 `json:"a\\b"`
}

type g205 struct {
	G202 
}

type g206 struct {
	X JInt 
	g201 
	Aa bool `json:"c,string"`
	GIface 
	D NStr 
	S NInt 
}

type G207 struct {
	G192 
	g152 `json:"a\\b"`
	*G212 
}

type G208 struct {
	*g23 
}

type G209 struct {
	*G20 `json:"x y"`
	AB string 
	*g59 
	*G83 
}

type g210 struct {
	G49 
	*g210 
}

type G211 struct {
	G100 
	g127 
	Name map[string]int `json:"D"`
	Id []int `json:"A,omitempty"`
	Y *TStruct 
	S uint8 
	AB string 
	*G38 
	B bool `json:"-,"`
	A string `json:"-,"`
	aa float32 `json:"A,omitempty"`
}

type G212 struct {
	K interface{} 
	Id string `json:"k,omitempty,string"`
	C string `json:"b,omitempty"`
	GHook 
	G159 
	X string `json:",string"`
}

type G213 struct {
	g34 
	É bool 
	g55 
	*G213 `json:"<t>"`
	AB float32 
	G14 
}

type g214 struct {
	b uint64 `json:"a-b,omitempty"`
	G192 
	g178 
}

type G215 struct {
	G197 
	g182 
	S map[string]*NInt 
	Y []int `json:"0,omitempty"`
	*G191 
	Ks JInt 
}

type G216 struct {
	*G71 
	*G14 
	D int `json:""`
	S string `xml:"a"`
	*G173 
	C *float64 `json:"<t>,omitempty"`
}

type G217 struct {
	*g199 
	D int 
	G83 
	Y float32 `json:"c,string"`
	g168 
	A uint64 `json:"A,omitempty"`
	S int64 `json:",omitempty,string"`
	Id int `json:"é,string,omitempty,string"`
	K string `json:"name,omitempty"`
}

type G218 struct {
	AB float64 
	AA bool `json:"D,omitempty"`
	x float64 
	G173 
	G35 
	g111 
}

type g219 struct {
	G110 
	*G203 
	g127 
	B NStr `json:"ks,string,omitempty"`
}

type G220 struct {
	aa string `json:"B"`
	Name float32 
	C int8 `json:",omitempty"`
	Aa string 
	G45 
}

type g221 struct {
	AB int64 `json:"ſ,omitempty"`
	G194 
}

type G222 struct {
	Y float64 `json:",omitempty,string"`
	G141 
	A TStr `json:"K"`
}

type G223 struct {
	A float64 
	B string 
	G44 `json:"-"`
	G36 
}

type G224 struct {
	G125 
	Ks struct{} `json:"-,"`
	*G194 `json:"a-b"`
	*g109 
	*G177 
}

type g225 struct {
	*G0 
	*G227 
	AB bool 
}

type g226 struct {
	G204 
	G161 
	Aa float32 
	ID map[string]int 
	K bool `json:"ks,omitempty"`
	AA *bool 
	*GNum `json:"-"`
}

type G227 struct {
	*G32 
	G50 `json:"B"`
	a string `json:"b,omitempty,string"`
	*G57 `json:"0"`
	Ks NStr `json:"k,omitempty"`
}

type G228 struct {
	g31 `json:"ks"`
	B float32 `json:"id"`
	Id uint8 `json:",omitempty,string"`
}

type g229 struct {
	D map[string]int `json:"<t>,omitempty"`
	C int8 `json:"b"`
	AA map[string]int 
	Id bool 
	gnum 
	*g6 
	Name int `json:"-"`
	a float64 `json:"-,"`
}

type g230 struct {
	A bool `json:",omitempty"`
	AA int 
	D float64 `json:",omitempty"`
	Aa [2]int `json:"x y,omitempty"`
	*g182 
	Id []string 
}

type G231 struct {
	G67 
	Id string `json:"A,omitempty"`
	b string 
	g182 `json:"ß"`
	*G159 
	G44 
}

type g232 struct {
	*g232 
	*G220 `json:"<t>"`
	G191 
	G231 
	Ks *TStruct 
}

type g233 struct {
	GNum 
}

type G234 struct {
	*g73 
	Y string `json:"é,string"`
	g127 
	É uint8 
}

type g235 struct {
	X map[string]*NInt 
	id int 
	ID interface{} `json:",omitempty"`
	A string 
	Id float64 
	Ks interface{} `xml:"a"`
	S *bool 
	g221 
	AB int64 `json:"c"`
	Aa string `json:"<t>,omitempty,string"`
	Name [2]int 
}

type G236 struct {
	Ks []byte `json:"ks"`
	B uint64 
	Id uint64 `json:"b,omitempty"`
	G173 `json:"é"`
	GStrs 
}

type G237 struct {
	ID float32 
	g199 
	Name **int 
	AA float64 
	g112 
	*g225 
}

type G238 struct {
	*G238 
	Name JInt 
	GFace 
	Ks float32 `json:"0,string"`
	Y int8 `json:"A,omitempty"`
}

type g239 struct {
	G49 
	B uint64 
	GHook 
	A uint64 
	Y NStr `json:"k,omitempty"`
	X string 
	g46 
}

type G240 struct {
	ID int 
	G187 
	*G207 
	Id int64 `json:"K,omitempty,string"`
}

type G241 struct {
	C **int 
	G141 `json:"ks,omitempty"`
	Aa string 
	B int `json:"B,omitempty"`
	*G241 `json:"ks"`
	Y int8 
	c int 
	X int8 `json:"-,"`
}

type G242 struct {
	*g199 
	G187 
	a int 
	B *string 
	Y *int `json:"a.b"`
	É float32 
}

type G243 struct {
	g130 
	*G146 
	a int `json:"-,"`
}

type g244 struct {
	K int8 
	*G44 `json:"A"`
	AB uint64 `json:"k,string"`
	É NStr 
	A int64 `json:"b"`
	B NStr `json:"D"`
	G202 `json:",omitempty"`
	GHook 
	X float32 
}

type G245 struct {
	G94 `json:",omitempty"`
	S struct{} `json:"b"`
	Name NStr 
}

type G246 struct {
	*g168 
	Ks TStr `json:"x y,omitempty"`
	A map[string]*NInt 
	GHook `json:"B"`
}

type G247 struct {
	*g46 
	*G250 
	ID int8 `json:"id,string"`
}

type G248 struct {
	AA int8 
	ID float32 `json:""`
	AB float32 `json:"c"`
	K int64 
	Aa NInt `json:",omitempty,string"`
	*G223 `json:"x y"`
}

type G249 struct {
	Id bool `json:"b"`
	G53 
	A string 
}

type G250 struct {
	*g115 
	*g254 
	*G203 `json:"aA,omitempty"`
	Id NStr 
	Y NStr 
}

type G251 struct {
	Id float64 `json:",omitempty,string"`
	Ks *string `json:"-"`
	g48 
	AB float32 `json:",string,string"`
	É NStr `json:"-,"`
	D []int `json:"a"`
	B string `json:"-"`
	X uint64 `json:"a-b"`
	C int64 `xml:"a"`
	AA int8 
	S []string 
}

type G252 struct {
	*g244 
	g235 
	*G255 
	*G224 
}

type g253 struct {
	*G49 
	A *float64 `json:",omitempty"`
}

type g254 struct {
	*G211 
	G212 
	X int 
}

type G255 struct {
	K string `json:"-"`
	G202 
	G119 
}

type g256 struct {
	G90 
}

type g257 struct {
	*G19 
	Y []int `json:",omitempty"`
	*g257 `json:"-"`
	*G262 
}

type g258 struct {
	g68 `json:"0,omitempty"`
	G40 
}

type g259 struct {
	g62 
	AB int `json:"K,omitempty"`
	*g259 
	*g260 
	D string `json:",string"`
}

type g260 struct {
	D string 
	g225 
	Y uint64 `json:"c,omitempty"`
	g233 
	B JInt 
	K float32 
}

type g261 struct {
	Ks float64 
	g18 
	B bool `json:"x y,omitempty"`
	AB NStr `json:"-"`
	D float64 `json:"B,string"`
	G52 
	c int8 
	Id bool `json:"ß"`
}

type G262 struct {
	G53 
	AB int8 
}

type G263 struct {
	aa uint8 `json:"ks,omitempty"`
	X []string `json:"<t>,omitempty"`
	*G263 
}

type G264 struct {
	B int64 `json:"<t>"`
	g257 
	G179 
	AB *int `json:"B,omitempty"`
}

type G265 struct {
	g87 
	*g74 
	g244 
}

type G266 struct {
	*g259 `json:"-"`
	*g257 
	aa string `json:"a-b,omitempty,string"`
	B int64 `json:"-"`
	G1 
	*G255 `json:"<t>"`
}

type G267 struct {
	AA string `json:a`
	g258 
	GIface `json:"ß"`
	g244 
	É int `json:",omitempty"`
	Aa string 
	C *string 
	A **int 
	G103 
}

type G268 struct {
	Id uint64 `json:",omitempty"`
	*G268 
	*g105 
	É bool 
	Name string `json:"b"`
	Y json.Number `json:"-"`
}

type G269 struct {
	*G269 
}

type g270 struct {
	*G44 
	*G49 
	ID string 
	GHook 
}

type G271 struct {
	*g111 
	AA **int `json:"0"`
	G203 `json:",omitempty"`
	*G10 
	G166 
	a uint64 `json:"id,string"`
	Id [0]int 
	B map[string]int 
}

type g272 struct {
	gmap 
}

type G273 struct {
	G268 
	D *bool 
	Y int64 `json:"0"`
}

type G274 struct {
	g18 
	Id JInt 
}

type g275 struct {
	*g54 
	D float64 `json:"A,omitempty,string"`
	*g26 
	*g68 
	G40 `json:"b"`
}

type G276 struct {
	S *float64 `json:"B"`
	*G269 
	Y uint8 `json:"0"`
	X int64 
	C float32 
	B map[string]*NInt `json:"a"`
	AB *float64 
	D []string `json:"A"`
	Name int 
	AA int64 
	K int `json:"aA"`
	Id int 
}

type G277 struct {
	gface 
	*G246 
}

type G278 struct {
	*g58 
	a float32 
	X float32 `json:",omitempty"`
	Name uint64 `json: "a"`
	G40 
	g39 
}

type G279 struct {
	id string `json:"name,string"`
	k int64 
	Aa int64 
	K int `json:"a-b"`
	*G245 
	G278 
}

type g280 struct {
	S *bool 
	*g285 
	*g257 
}

type g281 struct {
	*G227 `json:",omitempty"`
	ID bool `json:",omitempty,string"`
	É [0]int `json:"-,"`
	*g5 
	g261 `json:"é"`
	GStrs 
}

type G282 struct {
	g58 `json:"-"`
	*G213 
	B JInt 
}

type G283 struct {
	G242 
	g199 
	*GNum 
}

type g284 struct {
	*G231 
	*G234 
	*g201 
	*g118 
}

type g285 struct {
	AB *string `json:"-,"`
	S *int 
	ID int `json:"0,omitempty"`
	AA []string `json:"-"`
	id uint8 `json:"ſ,omitempty"`
	Y uint8 
	*G69 
	*g6 
	Ks *int 
}

type G286 struct {
	C string `json:",omitempty"`
	g54 
	É NStr `json:",string"`
	Y float32 
	Aa int8 
	*G288 
	ID float64 
	K int8 
	G36 
	*G42 
	Name float32 
	X float64 `json:"c"`
}

type G287 struct {
	B int8 `json:"D"`
	G282 `json:"-"`
	ID float32 `json:"B"`
	*G289 
	c int64 
	AB map[string]*NInt `json:"K"`
	X struct{} `json:"x y,omitempty"`
	G234 
	K []byte `json:",omitempty"`
	g130 
}

type G288 struct {
	*G288 
	G25 `json:"name"`
	Id bool 
	*G208 
	g270 
	Y uint8 `json:"A,string"`
	X []string 
}

type G289 struct {
	a int 
	G246 
	x NInt `json:"é,string"`
	AB [2]int `json:"ks"`
	id string `json:"-,"`
	b NStr `json:"a.b,omitempty,string"`
	*g257 
}

type g290 struct {
	*g46 
	G50 
	B float64 
	ID string 
}

type G291 struct {
	D *float64 `json:"ſ,omitempty"`
	É uint64 
	S []int `json:"name"`
	G287 
	X bool 
	*G15 
}

type G292 struct {
	g270 
	É int `json:"ſ,omitempty"`
	k float64 
}

type G293 struct {
	*G231 
	aa NInt `json:"-"`
	c int64 
	*g239 
	G278 `json:"ks"`
}

type g294 struct {
	G203 
	*g253 
	G166 
	AB bool `json:"name,omitempty"`
}

type g295 struct {
	K int `json:"ks,omitempty,string"`
	Name map[string]int 
	a uint64 `json:"0"`
	B uint64 
	*G278 
	*g272 
	aa uint8 `json:"ſ"`
	g290 `json:"aA"`
}

type G296 struct {
	*G10 `json:",omitempty"`
	ID interface{} `json:"\x01"`
}

type G297 struct {
	G269 
	id int8 
	S string `json:"a-b"`
}

type g298 struct {
	GStrs 
	Name int `json:"id"`
}

type G299 struct {
	gface 
	a int64 `json:"é,string"`
	G63 
	X NInt `json:"id"`
	C string `json:",string,string"`
	G49 
}

type g300 struct {
	G43 
	Id bool `json:"x y,omitempty"`
	*g54 
	g46 
	G32 
}

type g301 struct {
	Name string `json:"b,omitempty"`
	*g229 
	Id int 
}

type G302 struct {
	Y string `json:"a-b,string"`
	Id string `json:"é,string"`
	G32 `json:"a\\b"`
	K interface{} `json:"x y,omitempty"`
	GHook 
	D uint64 
	a int8 `json:"ſ"`
	B float32 `json:",omitempty"`
	g62 
	X int 
	AA *bool `json:"-,"`
}

type G303 struct {
	a NStr 
	Name int8 
	D struct{} 
	ID map[string]*NInt 
	B string 
	K uint64 `json:"ſ"`
	C float32 
	G13 
	S *TStruct `json:"B"`
}

type g304 struct {
	G251 
	G69 `json:"a.b,omitempty"`
	g275 
	*G228 
	Aa NInt `json:",omitempty"`
}

type G305 struct {
	X int64 `json:",omitempty"`
	A NInt `json:"a-b,string"`
	ID uint8 
	*G251 
	G286 
	B int `json:"name"`
	x float32 
	Ks int64 
}

type G306 struct {
	Id float32 `json:"a" json:"b"`
	g210 `json:"x y"`
}

type G307 struct {
	G80 
	G213 
	*G307 
	x uint64 
	ID **int 
}

type G308 struct {
	AA float32 `json:"-,"`
	*G286 
	Ks NStr 
	D uint64 `json:"id"`
	*gnum 
	A float32 
}

type G309 struct {
	G56 
	A int `json:"K"`
	G47 
}

type G310 struct {
	*g60 
	G24 
}

type g311 struct {
	ID *TStruct 
	Aa NStr `json:"K,omitempty"`
	*G57 
}

type G312 struct {
	G224 
	g311 
	*G312 
	Y NInt 
}

type g313 struct {
	g33 
	Id NInt 
	g258 
	g290 `json:"a\\b"`
}

type g314 struct {
	É [2]int 
	G296 
	*g300 
}

type G315 struct {
	Y uint64 `json:"<t>,string"`
	*G38 `json:"id"`
	ID JInt 
}

type g316 struct {
	*g285 
	AA float64 
	Name bool 
	*g281 
	G286 `json:",omitempty"`
	*G194 
}

type g317 struct {
	K *float64 
	Name map[string]int `json:"ks,omitempty"`
	AB interface{} `json:"a"`
	*g321 
	S uint8 `json:"ks"`
	X int 
	A struct{} `json:"K"`
	AA int `json:",omitempty"`
	C NStr 
	Y NInt `json:"-"`
	Ks float64 `json:",omitempty"`
	Aa int 
	G65 
	D *string `json:"0,omitempty"`
}

type G318 struct {
	*G318 `json:"a\\b"`
	GFace 
	X bool `json:",omitempty"`
	*G322 
}

type G319 struct {
	*g59 
	Ks map[string]int `json:"a-b,omitempty"`
	É *int `json:"-"`
	*g73 
	D int8 
	*g270 
	S string `json:"B"`
}

type G320 struct {
	*G322 
}

type g321 struct {
	*G318 
	D uint64 `json:"<t>,string"`
	C TStr 
}

type G322 struct {
	AA uint8 
	*G322 `json:",omitempty"`
	A [2]int `json:"B"`
	g58 
	ID JInt 
}

type G323 struct {
	ID [0]int 
	K [2]int 
	*G315 
	G13 
}

type G324 struct {
	G40 
}

type g325 struct {
	G53 
	g5 `json:",omitempty"`
	S string `json:"ſ,omitempty"`
	AB uint64 `json:"k,string"`
}

type G326 struct {
	*g317 
	G271 `json:"a.b"`
	g300 `json:"ß"`
}

type g327 struct {
	*g327 
	ID uint8 `json:",omitempty"`
	*g105 
	G51 
}

type G328 struct {
	A map[string]*NInt `json:"<t>"`
	AA NStr 
	g46 
	D int `json:"ß"`
	S json.Number `json:"ß"`
	ID uint8 
	K float32 `json:"D"`
	É bool 
	Id float64 `json:"a,omitempty"`
	Ks NStr `json:"0"`
	Y uint64 
}

type G329 struct {
	*g46 
	A string `json:",omitempty,string"`
}

type G330 struct {
	*G328 `json:"a\\b"`
	*G183 
	G94 
	G288 
}

type g331 struct {
	*g46 
	*g331 
	Aa json.Number 
}

type g332 struct {
	A string `json:"x y,string,string"`
	*g127 
	GFace 
}

type G333 struct {
	G306 `json:"ks,omitempty"`
	a int `json:"b"`
	B uint8 `json:"x y"`
}

type g334 struct {
	A uint64 
	*g61 
	X int `json:"-"`
	C string 
	*G69 
	G16 `json:"x y"`
	k int8 
}

type G335 struct {
	AB uint64 
	*g272 
	*G269 
	X string `json:"ſ,omitempty"`
}

type G336 struct {
	G322 
	*G65 
}

type G337 struct {
	AB []byte `json:"K"`
	Id uint8 
	g23 `json:"é"`
}

type g338 struct {
	G99 `json:"a\\b"`
	G228 
	Name uint8 `json:"x y,string"`
}

type G339 struct {
	b NInt 
	S int 
	Y NInt `json:"x y,omitempty"`
	G164 
	Aa string `json:"-,"`
}

type g340 struct {
	*G302 `json:"0"`
}

type G341 struct {
	*gnum 
	g64 
	g2 
	S int64 
	D TStr `json:"id,omitempty"`
	C [0]int 
	B float32 
	G337 
}

type g342 struct {
	*G183 
	GIface 
}

type g343 struct {
	D int64 `json:"-"`
	C [2]int `json:"K,omitempty"`
	*G220 
}

type g344 struct {
	G329 
	G337 
	K string `json:",omitempty"`
	A int64 `json:"<t>,string"`
	S interface{} `json:"é,omitempty"`
}

type g345 struct {
	*g350 
	*G15 
}

type G346 struct {
	*g347 
	Y int 
	ID bool 
	Aa float32 `json:"id,omitempty"`
}

type g347 struct {
	Name float32 
	AA [0]int 
	*g23 
	C float64 
	É int `json:"ks"`
}

type G348 struct {
	É uint8 `json:"-"`
	D float64 `json:",omitempty,string"`
	*G56 
	k uint8 
	g18 
	G19 
	Id bool 
	g54 
	X int `json:"ß,string"`
	AB int64 `json:",,omitempty"`
}

type G349 struct {
	Ks NInt `json:"b"`
	Aa map[string]int 
	B *TStruct `json:"-"`
	C NInt `json:"k,omitempty,string"`
	Id bool `json:",omitempty"`
	x NInt 
	*g275 
}

type g350 struct {
	*g270 
	*g334 `json:",omitempty"`
	g311 `json:"D,omitempty"`
	GNum 
}

type G351 struct {
	É bool 
	Aa int64 
	x uint8 `json:"ſ"`
	*g325 
	AA int8 `json:"<t>,omitempty"`
}

type G352 struct {
	D float64 
	g331 
	*G352 
	G50 
}

type g353 struct {
	AB NInt `json:"k,string"`
	G278 
	Aa struct{} `json:"a-b,omitempty"`
	*G274 `json:"a,omitempty"`
	*G251 
}

type G354 struct {
	G348 `json:"-"`
	G251 
	X int `json:"b"`
	G322 
	*G337 
	É float64 
	b uint8 
	Ks uint64 `json:"id"`
	S []int 
	Y int `json:"c,omitempty,string"`
}

type G355 struct {
	C string `json:",omitempty"`
	*G299 
	S []int `json:",omitempty"`
	id NInt 
	A int8 `json:"é,omitempty"`
}

type G356 struct {
	S [0]int `json:"c"`
	*G356 
	B int8 `json:"b"`
}

type g357 struct {
	A float32 
	Aa *int `json:"a"`
	*g358 
	Ks TStr `json:"<t>,omitempty"`
	Name string 
}

type g358 struct {
	Ks int8 `json:"-"`
	G36 `json:"a\\b"`
	S NInt `json:"<t>,string"`
	id uint8 `json:"D,omitempty"`
	Y uint8 
	*G40 
}

type G359 struct {
	Ks uint64 `json:"-,"`
	D *string `json:"ß"`
	Y uint64 `json:"0,omitempty"`
	B bool `json:",omitempty,string"`
	c NStr `json:"-,"`
	G328 
	id string `json:"name,string"`
}

type G360 struct {
	*G362 
	gface `json:"ß"`
	G356 `json:"a\\b"`
}

type G361 struct {
	X float32 `json:"x y,omitempty"`
	G36 
	AA string `json:"-,"`
	id string `json:",omitempty"`
	K string `json:"K"`
}

type G362 struct {
	c int8 `json:"k"`
	AB string `json:"-,"`
	G322 `json:"-"`
	a NStr `json:"name"`
	Ks int8 `json:"K"`
	ID uint64 
	Name string `json:"-"`
}

type g363 struct {
	*G315 
	*G322 
	*G365 
	*g363 
	Y string 
}

type g364 struct {
	Id [0]int `json:"name,omitempty"`
	*G354 
	Y int 
	B NStr `json:"D"`
	É string `json:"name"`
	Ks map[string]int 
	AB uint64 `json:"ks,string"`
}

type G365 struct {
	Ks NInt `json:"ks"`
	*g31 
	G49 
}

type G366 struct {
	*G309 
	G323 
	G243 `json:"a\\b"`
	aa int64 `json:"A,omitempty"`
	g350 `json:"-"`
}

type G367 struct {
	D json.Number 
	G69 
	X int64 
	Id string 
	É string `json:"c,omitempty,string"`
	K string `json:"a,string"`
	Y interface{} 
	AB float64 
	aa int `json:"<t>"`
	*G66 
	B float64 
	AA NInt 
	Name float32 
	S int `json:"ſ"`
}

type G368 struct {
	AB int 
	Name string 
	G269 
	K string `json:"ſ"`
	S uint64 
	*G324 
}

type g369 struct {
	Name bool 
	g64 
	G203 
}

type G370 struct {
	É int8 
	AA JInt `json:"a"`
	A bool `json:"é"`
	gmap `json:"id"`
	Y NStr `json:""`
	*g347 
	*G262 
	g270 
	AB struct{} `json:"B"`
}

type G371 struct {
	*G36 `json:"aA"`
	*G38 `json:"a.b"`
}

type g372 struct {
	G322 
	X string `json:",string"`
	*G377 
	Name float32 `json:"name,omitempty"`
	AB float64 
	ID json.Number `json:",omitempty"`
}

type G373 struct {
	Name string 
	*G376 `json:",omitempty"`
	G322 
}

type G374 struct {
	*G374 
	Id []byte `json:"a-b,omitempty"`
	É NInt `json:"B"`
	AA JInt `json:"id"`
}

type g375 struct {
	A []string 
	Y TStr `json:"a.b,omitempty"`
	*G371 
}

type G376 struct {
	g259 
	G320 
	Name map[string]*NInt 
	c uint8 `json:"k,string"`
}

type G377 struct {
	c int 
	Name int `json:"a-b,omitempty"`
	Ks uint8 `json:",string,string"`
	g30 
}

type G378 struct {
	D TStr `json:",omitempty"`
	G202 `json:"é,omitempty"`
}

type g379 struct {
	g61 `json:",omitempty"`
	Name NInt `json:"D,omitempty"`
	GFace 
	AA []byte `json:",omitempty"`
}

type g380 struct {
	A float32 
	*G361 
	Y float64 
}

type G381 struct {
	Aa int 
	id int8 `json:"-,"`
	Name **int `xml:"x" json:"b"`
	A **int 
	g331 
	b string 
	C uint64 `json:"-,"`
}

type G382 struct {
	g343 
	aa bool 
	g375 `json:"D"`
	É float64 
	S interface{} 
	*g285 
	GHook `json:"-"`
}

type G383 struct {
	GHook 
	AB int 
}

type G384 struct {
	Y json.Number 
	*g62 
}

type g385 struct {
	Aa []string 
	Id bool `json:",omitempty"`
	a int8 `json:"é,omitempty"`
	Y map[string]int 
	k int 
	*G377 
	ID NInt `json:"0,string"`
	g358 
}

type G386 struct {
	G40 
	*G386 
}

type G387 struct {
	S uint8 `json:"k,omitempty"`
	Aa TStr 
	AA string 
	*G387 
	G22 
	A float32 `json:"A"`
	AB string `json:"id,omitempty,string"`
	É []string 
}

type G388 struct {
	*G217 
	C bool 
	x uint8 `json:"x y"`
	Id string `json:"-"`
}

type G389 struct {
	K bool `json:"K"`
	*G103 
}

type g390 struct {
	g369 
	aa uint64 
	Y float32 
}

type G391 struct {
	A float32 `json:"K,omitempty"`
	G368 
}

type G392 struct {
	*g395 
	Name interface{} 
	G49 
}

type G393 struct {
	b float32 
	D JInt `json:"ſ,omitempty"`
	g26 
}

type G394 struct {
	Ks NStr 
	*g11 
	G57 
	g60 
	*G43 
}

type g395 struct {
	Ks map[string]int 
	g158 
	GFace 
	g353 `json:"K"`
	c NStr `json:"ſ,string"`
	*g395 
}

type G396 struct {
	É NStr `json:"id"`
	A [2]int `json:"D"`
	K int `json:"ks,omitempty"`
	*G399 
	G22 
}

type g397 struct {
	K NInt 
	g115 
	*G368 `json:"b,omitempty"`
	B []string `json:"-,"`
}

type G398 struct {
	B int `json:",omitempty,string"`
	AA uint8 `json:"a.b,string"`
	*g29 
	ID uint8 
	D int8 `xml:"a"`
	*G47 
}

type G399 struct {
	g34 
	*G3 `json:"b"`
	G56 
	g39 `json:"B"`
	Id struct{} `json:"a,omitempty"`
}

type g400 struct {
	*g7 
	*g17 
	G37 `json:"a\\b"`
	AA uint64 
	*G402 
}

type G401 struct {
	*G406 
	G255 
	Id float32 `json:"x y"`
}

type G402 struct {
	S *int 
	G27 
	Ks int64 
}

type g403 struct {
	ID *int `json:"name"`
	Id map[string]int `json:"ß,omitempty"`
	S string `json:",omitempty"`
	*g59 
	aa int64 `json:"D,omitempty"`
	É float64 
	b string 
	G38 
	C *TStruct 
	G43 
	Name int64 `json:",omitempty,string"`
	Ks *TStruct 
	k int 
	Y map[string]int `json:"id"`
	G67 
}

type G404 struct {
	S int `xml:"a"`
	D uint8 
	Aa int `json:"é,omitempty,string"`
	G361 
	*G384 
	*G406 
	x int64 `json:"A,omitempty"`
}

type G405 struct {
	X int 
	É int `json:"-,"`
	*G35 
	*G37 
	Name *string `json:"id"`
	Y uint8 `json:",omitempty"`
}

type G406 struct {
	g403 
}

type g407 struct {
	Y uint64 
	AA NInt 
	É string `json:"-,"`
	*g46 
	K map[string]int 
	*g412 
}

type G408 struct {
	*gnum 
	X int 
	*G302 `json:"a\\b"`
	*G408 
}

type g409 struct {
	Y uint64 `json:"A,string"`
	*g353 
	Name string 
}

type G410 struct {
	g372 
	G387 
	*G370 
}

type g411 struct {
	AB NStr `json:"x y,string"`
	b string 
	*G52 `json:"name,omitempty"`
	K uint64 `json:",omitempty,string"`
}

type g412 struct {
	G28 
}

type g413 struct {
	D float64 
	G249 
	É int `json:",string"`
}

type G414 struct {
	Y string 
	Name [0]int `json:"aA,omitempty"`
	K int64 `json:",omitempty,string"`
	Ks float64 `json:"<t>,omitempty"`
	G56 `json:"K"`
	Aa NStr 
}

type G415 struct {
	G396 
	*G22 `json:"-"`
	*g418 
	D NStr 
	A int `json:"ſ"`
}

type G416 struct {
	g357 
	*G416 
	G69 `json:"-"`
	C int64 
	Id float32 
	G371 
}

type G417 struct {
	É *string `json:"id,omitempty"`
	Ks JInt 
	Id float32 
	GHook 
	AB uint8 `json:"-,"`
	*g46 
}

type g418 struct {
	C NStr `json:"é,omitempty"`
	Name map[string]*NInt 
	Ks NStr 
	Id *string 
	*G367 
	g357 
	ID int 
}

type G419 struct {
	Ks bool `json:"D"`
	g68 
	AB [2]int 
	G43 
	A uint8 
	g11 
	G47 
}

type G420 struct {
	B string 
}

type g421 struct {
	B NInt `json:"-,"`
	C int64 `json:"<t>,omitempty"`
}

type G422 struct {
	*g421 
}

type g423 struct {
	*g421 
}

type G424 struct {
	*G420 
}

type G425 struct {
	ID map[string]int 
	D []int 
}

type G426 struct {
	*G422 
	G424 
}

type g427 struct {
	*g421 
	*G420 
}

type g428 struct {
	K int 
	Name string `json:"ks"`
}

type g429 struct {
	Id *int `json:"ſ"`
}

type G430 struct {
	*g428 
}

type G431 struct {
	*G426 
	g428 
}

type g432 struct {
	G425 
}

type G433 struct {
	G431 
	*G430 
	Aa uint64 `json:"ks"`
}

type G434 struct {
	*G426 
}

type G435 struct {
	*g423 
}

type G436 struct {
	Name int 
	Aa NStr 
}

type G437 struct {
	*G431 
	*G434 
}

type G438 struct {
	*G436 
}

type G439 struct {
	*g429 
	Y int `json:",string"`
}

type G440 struct {
	*G438 
	g429 
	AA uint8 `json:",omitempty,string"`
}

type g441 struct {
	G438 
}

type g442 struct {
	É uint64 
	A string 
}

type G443 struct {
	G433 
}

type G444 struct {
	D float64 
	S bool `json:"id,omitempty"`
}

type g445 struct {
	A interface{} 
	ID NStr 
}

type G446 struct {
	*g427 
}

type G447 struct {
	Id NInt 
}

type G448 struct {
	*g428 
}

type G449 struct {
	*G438 
}

type G450 struct {
	G425 
	C int64 `json:"a.b,omitempty"`
}

type G451 struct {
	*g423 
}

type G452 struct {
	*G426 
}

type G453 struct {
	*g429 
	G420 
}

type g454 struct {
	AA []int 
	A uint8 `json:"aA"`
}

type G455 struct {
	*G449 
	AB string 
}

type G456 struct {
	Ks float64 
}

type G457 struct {
	*G424 
}

type g458 struct {
	AA NInt `json:"id,omitempty"`
}

type G459 struct {
	G431 
}

type G460 struct {
	Y *int 
	Aa uint64 
}

type G461 struct {
	*G455 
}

type G462 struct {
	*g445 
}

type G463 struct {
	g427 
}

type g464 struct {
	*G431 
}

type G465 struct {
	*G426 
	G447 
}

type G466 struct {
	*g464 
}

type g467 struct {
	*G451 
	*G463 
	É uint64 `json:"A"`
}

type G468 struct {
	A map[string]int `json:",omitempty"`
	Ks int `json:"A,omitempty"`
}

type g469 struct {
	*g427 
}

type G470 struct {
	*G436 
	*G440 
}

type G471 struct {
	*g469 
	g428 `json:"a\\b"`
}

type G472 struct {
	G462 
	Y NInt 
}

type G473 struct {
	Aa interface{} 
}

type G474 struct {
	g428 
}

type g475 struct {
	*G425 
}

type G476 struct {
	K *string 
}

type G477 struct {
	*g464 
	g454 
}

type G478 struct {
	B *string `json:"ß"`
}

type G479 struct {
	*G474 
	AB int8 
}

type g480 struct {
	É NInt `json:"A"`
}

type g481 struct {
	Aa NInt `json:"c,omitempty"`
	K bool `json:"b"`
}

type g482 struct {
	G424 
	G449 `json:"-"`
}

type G483 struct {
	Id int `json:",omitempty"`
}

type G484 struct {
	G478 
}

type g485 struct {
	É int `json:"é"`
	X *string `json:"aA"`
}

type G486 struct {
	X string `json:"K"`
}

type G487 struct {
	S float32 
}

type G488 struct {
	*G468 
}

type g489 struct {
	G436 `json:"b"`
}

type g490 struct {
	K []int `json:"<t>"`
	D interface{} 
}

type G491 struct {
	g454 
}

type G492 struct {
	ID map[string]int 
}

type G493 struct {
	*g445 
}

type g494 struct {
	B uint64 `json:"id"`
	Id int `json:"x y"`
}

type G495 struct {
	*G448 
}

type g496 struct {
	*G453 
}

type G497 struct {
	Y uint8 
}

type G498 struct {
	A int64 `json:"a.b"`
}

type g499 struct {
	*g475 
}

type G500 struct {
	X uint64 
}

type G501 struct {
	*g467 
	*G491 
	X int64 
}

type g502 struct {
	*g494 
}

type G503 struct {
	*G462 
}

type g504 struct {
	Aa string 
}

type G505 struct {
	*g504
	D uint64 
}

type G506 struct {
	g504
}

type g507 struct {
	g504
	AA uint8 `json: "a"`
}

type G508 struct {
	g504
	ID bool `json:"B"`
}

type G509 struct {
	*g504
	Ks float32 
}

type G510 struct {
	*G505
	G509
	*g507
	G508
	*G506
	Name string `json:"c,omitempty,string"`
}

type G511 struct {
	*G508
	*G506
	G505
}

type G512 struct {
	S int64 
	AB NStr 
}

type G513 struct {
	G512
}

type G514 struct {
	G512
	S string `json:"c,string"`
}

type g515 struct {
	G512
}

type G516 struct {
	G512
}

type G517 struct {
	G512
}

type g518 struct {
	G517
	G513
}

type G519 struct {
	g515
	G517
	g518
	*G516
	G513
}

type G520 struct {
	C string `json:"id,omitempty"`
	D string `json:",string"`
	B float32 `json:"-,"`
}

type G521 struct {
	G520
}

type g522 struct {
	G520
	C uint64 `json:"b,omitempty"`
}

type g523 struct {
	G520
	Ks int 
}

type G524 struct {
	*G520
}

type G525 struct {
	G520
}

type g526 struct {
	*g523
	G521
	*G524
}

type g527 struct {
	G524
	g526
	G525
	*g522
	ID NInt `json:",omitempty"`
}

type G528 struct {
	C int 
	AA NInt `json:"name,omitempty"`
	D int `json:"aA,string,omitempty,string"`
}

type g529 struct {
	G528
}

type G530 struct {
	*G528
	A float64 `json:"-,"`
}

type g531 struct {
	G528
}

type g532 struct {
	G528
}

type G533 struct {
	*G528
	K bool 
}

type g534 struct {
	g532
	G530
	G533
	g529
}

type G535 struct {
	g529
	G530
}

type G536 struct {
	D bool `json:"id,omitempty"`
}

type G537 struct {
	G536
}

type G538 struct {
	G536
	Aa string 
}

type G539 struct {
	G536
}

type G540 struct {
	G536
}

type G541 struct {
	G536
}

type G542 struct {
	*G540
	G539
	G541
}

type G543 struct {
	G538
	G537
	*G539
	*G540
	G541
	K string 
}

type GA0 struct {
	ID uint64  `json:"-"`
}

type GA1 struct {
	Name bool  `jsom:"A,string,string" json:"decoy"`
	ID [2]int  `json:"-"`
	Id string  `json:"A,omitempty"`
}

type gA2 struct {
	X []string  
	AB bool  `json:"decoy"`
	ID NStr  `jsom:"0,omitempty,string" json:",string"`
	Id int  `jsom:"-"`
	Ks int64  `json:"a"`
	id NStr  `jsom:"aA,string,omitempty,string" json:"A,omitempty"`
	K JInt  `xml:"x" jsom:"b"`
}

type GA3 struct {
	ID [0]int  `jsom:"a-b,omitempty"`
	AB NInt  `json:"A,omitempty"`
}

type gA4 struct {
	Y int8  `json:"decoy"`
	x uint64  `jsom:",omitempty" json:"A,omitempty"`
	S string  `json:"-"`
}

type gA5 struct {
	b bool  `jsom:"ß" json:"-"`
	X uint8  
}

type gA6 struct {
	AB NStr  `jsom:"-"`
	B int64  `jsom:"a.b"`
}

type gA7 struct {
	ID float32  `jsom:"D,omitempty" json:",string"`
	C bool  `jsom:"aA,string,omitempty"`
	AB NStr  `jsom:"-,"`
	B JInt  
	x float32  `jsom:"name,omitempty" json:"A,omitempty"`
	Aa float64  `jsom:"-"`
}

type gA8 struct {
	Ks uint64  `jsom:"b,omitempty,string" json:"decoy"`
	S TStr  `json:"A,omitempty"`
	b NStr  
	ID uint64  `json:"A,omitempty"`
}

type GA9 struct {
	K NStr  `json:"decoy"`
}

type GA10 struct {
	S int  `jsom:",omitempty" json:"-"`
	k int  `json:"A,omitempty"`
}

type gA11 struct {
	b float32  `json:"-"`
	ID uint64  `jsom:",omitempty"`
	id float64  `json:",string"`
	c int64  `jsom:"x y,omitempty,string"`
}

type gA12 struct {
	Ks float32  `json:"decoy"`
	AB string  `json:"-"`
	Name int  `jsom:"k,omitempty" json:"a"`
}

type GA13 struct {
	C string  `json:",string"`
	S NInt  `jsom:",omitempty,string" json:"A,omitempty"`
	Aa int  `jsom:"\"q\"" json:"-"`
	AA uint64  `json:"A,omitempty"`
}

type GA14 struct {
	X map[string]int  `jsom:"b" json:"A,omitempty"`
	AB string  `json:",string"`
}

type GA15 struct {
	C float32  `json:"-"`
}

type GA16 struct {
	É NStr  `json:"a"`
	Aa string  `json:"a"`
	ID string  `jsom:"a,omitempty" json:"decoy"`
}

type gA17 struct {
	Ks string  `jsom:"K" json:",string"`
	C uint64  `jsom:a json:"-"`
	AB []byte  `json:"decoy"`
	AA int64  `jsom:"c" json:"-"`
	S uint8  `json:"A,omitempty"`
	B map[string]*NInt  `jsom:",omitempty" json:"decoy"`
}

type gA18 struct {
	C *bool  `jsom:"0" json:"-"`
	Name map[string]int  `jsom:"id,omitempty"`
}

type GA19 struct {
	A string  `jsom:"a" json:"A,omitempty"`
}

type GA20 struct {
	S float32  `jsom:"-" json:"a"`
	Id int8  `json:"decoy"`
}

type GA21 struct {
	D uint64  `json:"decoy"`
	X float32  `jsom:",omitempty" json:"A,omitempty"`
}

type GA22 struct {
	D int8  `jsom:"a-b,omitempty" json:",string"`
	ID uint8  `json:"decoy"`
	c float32  `json:"A,omitempty"`
	É []byte  `jsom:"a.b,omitempty" json:"-"`
}

type gA23 struct {
	C map[string]*NInt  `jsom:"é" json:"-"`
	ID uint64  `json:"a"`
	A float64  `jsom:",omitempty" json:",string"`
	AA int8  `xml:"x" jsom:"b" json:"decoy"`
}

type GA24 struct {
	AA int64  `json:"-"`
	X string  `jsom:"x y,omitempty,string"`
}

type GA25 struct {
	X float32  `json:"a"`
	Ks uint64  `json:"A,omitempty"`
}

type gA26 struct {
	A JInt  `json:"decoy"`
	S [2]int  `json:"-"`
	Name map[string]int  `jsom:"a.b,omitempty" json:"A,omitempty"`
	X uint64  `json:"-"`
	b int64  `jsom:"k,omitempty" json:"decoy"`
	id NInt  `json:"A,omitempty"`
}

type GA27 struct {
	Name uint8  `jsom:",omitempty" json:"A,omitempty"`
	S float64  `jsom:"\"q\"" json:"a"`
	k int  `jsom:"0" json:",string"`
	Aa *int  `json:"-"`
	B NStr  
	X int  
}

type GA28 struct {
	Aa int64  `json:",string"`
}

type gA29 struct {
	S float32  `jsom:"ſ" json:"-"`
	B float64  `jsom:"a-b,omitempty"`
}

type gA30 struct {
	b int  `json:"decoy"`
	B *string  `json:"decoy"`
	c int  `json:"-"`
	id string  
	Y int  `json:",string"`
	S float64  `jsom:"0"`
	AB float64  `jsom:"0" json:"a"`
}

type gA31 struct {
	A []byte  `jsom:"0" json:"a"`
	B bool  `jsom:"x y,omitempty" json:"-"`
}

type GA32 struct {
	S int8  `jsom:"-" json:"-"`
	B map[string]int  `json:"decoy"`
	Name NStr  `jsom:"aA,omitempty" json:"-"`
	É int64  `json:",string"`
	C int  `jsom:"aA" json:"decoy"`
	X string  `jsom:"k,omitempty" json:"A,omitempty"`
}

type gA33 struct {
	S *TStruct  `json:"A,omitempty"`
	Ks []int  `json:"a"`
	É *string  `json:"-"`
}

type gA34 struct {
	A NInt  `json:"-"`
}

type GA35 struct {
	X NInt  `json:"A,omitempty"`
	É []byte  `jsom:"-" json:"a"`
	AA bool  `json:"A,omitempty"`
	A []int  `jsom:",omitempty" json:"a"`
	Ks uint64  `json:",string"`
	Id string  `json:"-"`
	b bool  `json:",string"`
}

type GA36 struct {
	X *TStruct  `jsom:"name,omitempty" json:"a"`
	É int  `json:"a"`
}

type GA37 struct {
	c string  `jsom:"-," json:",string"`
	A []int  `jsom:"-"`
}

type GA38 struct {
	D *float64  `json:"a"`
	B uint64  `json:"A,omitempty"`
}

type gA39 struct {
	Ks uint8  `json:"A,omitempty"`
	ID NStr  `jsom:"a.b,omitempty" json:"a"`
	AB json.Number  `jsom:"<t>"`
}

type GA40 struct {
	D struct{}  `jsom:"\x01" json:"decoy"`
	É NInt  `jsom:",omitempty" json:"-"`
	Ks int64  `json:"a"`
}

type gA41 struct {
	Aa int  `jsom:"a" jsom:"b" json:"decoy"`
	AB json.Number  `jsom:"A,omitempty" json:"A,omitempty"`
}

type GA42 struct {
	AA float32  `json:"decoy"`
}

type GA43 struct {
	A uint64  `json:"-"`
	C int64  `json:"decoy"`
	Y **int  `jsom:"a,omitempty" json:"a"`
	k string  `jsom:"c,omitempty" json:"A,omitempty"`
}

type GA44 struct {
	aa float64  `jsom:"k,string,omitempty" json:"a"`
	D TStr  `json:"-"`
	C float32  `json:"-"`
	X NInt  `json:"-"`
	K string  `jsom:"a,omitempty" json:"-"`
	A NStr  `json:"-"`
	Aa float32  `jsom:"x y,omitempty"`
	ID []string  `jsom:"é" json:"decoy"`
}

type GA45 struct {
	Name int  
	A uint64  `json:"-"`
	b NInt  `xml:"x" jsom:"b" json:"decoy"`
	Ks int64  `json:"A,omitempty"`
	Id string  `json:",string"`
	id float64  `jsom:"-" json:",string"`
	B NStr  `jsom:"-" json:"A,omitempty"`
}

type gA46 struct {
	Aa int  `json:"A,omitempty"`
	x string  `jsom:"x y,string" json:"-"`
}

type GA47 struct {
	K int  `json:",string"`
}

type gA48 struct {
	S string  `json:"-"`
	A float32  `json:"decoy"`
	X map[string]int  `json:"a"`
}

type GA49 struct {
	aa uint64  `json:"A,omitempty"`
}

type GA50 struct {
	Y float32  `json:"A,omitempty"`
	AA interface{}  `json:"-"`
}

type GA51 struct {
	AB [0]int  `jsom:"a-b,omitempty"`
	B uint8  `json:"-"`
}

type GA52 struct {
	X int8  `json:"-"`
	Y uint64  `jsom:"a.b" json:",string"`
	Ks **int  `json:"decoy"`
	AA uint64  `jsom:"<t>,omitempty,string" json:"decoy"`
	Name int  
	AB int  `jsom:"id"`
	C string  `jsom:"id"`
	Aa float64  `xml:"a"`
	k float64  `json:",string"`
	D []string  `jsom:"k" json:"decoy"`
	ID float32  `jsom:"-," json:"decoy"`
}

type GA53 struct {
	É bool  `jsom:"ß" json:"A,omitempty"`
	B int8  `json:"-"`
}

type gA54 struct {
	C float32  `jsom:",string" json:"a"`
	ID [0]int  `json:"a"`
}

type gA55 struct {
	Id int8  `jsom:"name,omitempty"`
	S int  `json:"A,omitempty"`
	D int  `jsom:"x y,omitempty" json:"a"`
	Ks float32  `json:",string"`
}

type GA56 struct {
	AA float64  
	D uint8  `json:"-"`
}

type GA57 struct {
	B int64  `json:",string"`
	S JInt  `jsom:"K,omitempty" json:"-"`
}

type gA58 struct {
	S string  `json:"a"`
	X uint64  `jsom:",string" json:"a"`
}

type gA59 struct {
	B int  `jsom:"aA,string" json:",string"`
	É interface{}  `jsom:"A"`
	Name [2]int  `jsom:"ks,omitempty"`
	A int  `jsom:"ß,string" json:"-"`
}

type gA60 struct {
	x string  `json:"decoy"`
	Id float64  `json:",string"`
	AA string  `jsom:"ſ,string,omitempty" json:"decoy"`
	a float32  `jsom:"D" json:",string"`
}

type gA61 struct {
	Ks *bool  `jsom:"ß" json:"A,omitempty"`
	S **int  `json:"a"`
}

type gA62 struct {
	Name string  
}

type GA63 struct {
	S *float64  `jsom:"a,omitempty" json:"decoy"`
	B [2]int  `jsom:"c,omitempty" json:"-"`
	K int  `jsom:",omitempty"`
	X uint8  `jsom:"-" json:"A,omitempty"`
	AB *TStruct  `jsom:"K,omitempty" json:"A,omitempty"`
	Aa int64  `jsom:",string" json:"a"`
}

type gA64 struct {
	É int  `jsom:",string"`
	S uint8  `json:"A,omitempty"`
	AA string  `json:"A,omitempty"`
	a string  `json:",string"`
}

type GA65 struct {
	a int  `json:",string"`
	A *float64  `json:"decoy"`
	S string  `json:"A,omitempty"`
	Name int  `json:"decoy"`
	AA NInt  `jsom:",omitempty,string" json:"decoy"`
	k float64  `jsom:"ks,omitempty,string" json:"A,omitempty"`
}

type GA66 struct {
	É string  `json:"decoy"`
	ID JInt  `json:"a"`
	Ks json.Number  `jsom:"A,omitempty" json:"-"`
	X float64  `jsom:"ks,omitempty" json:"a"`
	Aa string  `jsom:"-" json:",string"`
	S struct{}  
}

type GA67 struct {
	Id int8  `jsom:",string" json:"-"`
	AB TStr  `jsom:"<t>" json:"-"`
}

type gA68 struct {
	ID int  `json:"A,omitempty"`
	c int64  `jsom:"B,omitempty"`
	É int8  `jsom:"a.b,string" json:"A,omitempty"`
	Aa string  `jsom:"name,omitempty,string" json:",string"`
	AB int  `jsom:"-" json:"a"`
	A string  `json:"A,omitempty"`
}

type GA69 struct {
	Id string  `jsom:"-," json:"a"`
}

type gA70 struct {
	*gA41 `json:"-"`
	gA46 `jsom:"D,omitempty" json:"A,omitempty"`
	X int  `json:"-"`
	S float64  `json:"a"`
	*GA72 `json:"A,omitempty"`
	AB uint8  `jsom:"name,string"`
}

type GA71 struct {
	gmap  `jsom:"ks"`
	X int  `jsom:"-" json:",string"`
	B float64  `jsom:",string,omitempty" json:"decoy"`
	Y map[string]int  
	AB bool  `jsom:"x y,omitempty" json:"a"`
	Name int8  `jsom:"id,omitempty" json:"A,omitempty"`
	AA int8  `jsom:"-" json:"decoy"`
	b NStr  `jsom:"-" json:"decoy"`
	S string  `jsom:"b,string" json:"-"`
	D string  `json:"A,omitempty"`
	Ks [0]int  `json:"a"`
	*GA72 
}

type GA72 struct {
	ID json.Number  `jsom:"A"`
	Y float64  `jsom:"a-b" json:",string"`
	gA41 `json:"a"`
	gA46 `jsom:"k"`
}

type gA73 struct {
	gA68 `jsom:"id" json:"-"`
}

type gA74 struct {
	*GA28 `jsom:"x y" json:"A,omitempty"`
	X []string  `jsom:"-" json:"-"`
	*gA74 
	AA uint64  `json:"decoy"`
	S string  `json:",string"`
	*GA79 `json:"decoy"`
	*gA59 
}

type gA75 struct {
	Ks int  `jsom:"a-b" json:"-"`
	GA56 `json:"A,omitempty"`
	aa string  `jsom:"a"`
	D uint64  `jsom:"0,omitempty" json:"decoy"`
}

type GA76 struct {
	AB string  `json:",string"`
	ID int8  `jsom:"A,omitempty" json:"A,omitempty"`
	aa uint64  
	*GA76 `json:"A,omitempty"`
	É uint64  `json:",string"`
	Aa int64  `jsom:"b,omitempty" json:"-"`
}

type GA77 struct {
	*gA55 
}

type GA78 struct {
	Id int  
	b int  `jsom:"a" json:"-"`
	gA74 
	*GA3 `json:"-"`
	gA55 `jsom:"ks,omitempty" json:"A,omitempty"`
	AA int64  `jsom:"ſ" json:"decoy"`
	É *float64  `jsom:"k,omitempty" json:"-"`
}

type GA79 struct {
	Aa int8  `jsom:"ſ" json:"-"`
	GA47 `json:"a"`
}

type GA80 struct {
	aa NInt  `json:"-"`
	*GA40 `json:"A,omitempty"`
	gface  
}

type GA81 struct {
	*gA55 
	S int  `jsom:"K" json:"decoy"`
}

type GA82 struct {
	gA39 `jsom:"k" json:"A,omitempty"`
	gA34 `json:"-"`
}

type GA83 struct {
	GA0 `json:"A,omitempty"`
	GA43 `json:"a"`
	ID int8  `jsom:"k" json:"A,omitempty"`
	*GA63 `json:"-"`
	*gA61 `json:"-"`
}

type gA84 struct {
	aa NStr  `jsom:"-" json:"decoy"`
	GA56 `json:"-"`
	GA72 `jsom:"a"`
	D TStr  `jsom:"-"`
	É JInt  `json:"a"`
	ID int8  `json:"decoy"`
}

type GA85 struct {
	*GA42 `jsom:"ſ"`
}

type GA86 struct {
	*gA73 
	AB bool  `jsom:"a-b,string,omitempty" json:"A,omitempty"`
	*gA29 
	*GA89 
}

type gA87 struct {
	gA39 `json:"A,omitempty"`
	*GA57 `json:"a"`
	Name int64  `jsom:"K" json:"A,omitempty"`
	gA54 
	*gA34 
}

type gA88 struct {
	K map[string]*NInt  
	C NInt  `jsom:"a" json:"decoy"`
	GA63 
	ID string  `jsom:"a" json:"-"`
	É int64  `jsom:"a.b,string" json:"decoy"`
	*gA88 `json:"-"`
	B string  `json:"A,omitempty"`
	A **int  `json:"-"`
	AA string  `json:"-"`
	D JInt  `jsom:"x y"`
}

type GA89 struct {
	K JInt  `jsom:",omitempty" json:"a"`
	gA48 `json:"A,omitempty"`
	k int8  `jsom:"k" json:"A,omitempty"`
	GA86 
}

type GA90 struct {
	ID int  `jsom:"é,omitempty" json:",string"`
	GA57 `json:"A,omitempty"`
}

type gA91 struct {
	GStrs  `json:"-"`
	GA90 `json:"decoy"`
	*gA62 `json:"-"`
	x string  `json:"a"`
}

type GA92 struct {
	*GA93 `json:"-"`
	É bool  `jsom:"-" json:"decoy"`
	k int64  `jsom:"D,omitempty" json:"A,omitempty"`
	S uint8  `jsom:"<t>" json:",string"`
	K bool  `json:"A,omitempty"`
	ID string  `json:"A,omitempty"`
	Ks int  `json:"A,omitempty"`
	D uint8  `json:"A,omitempty"`
	aa NInt  `jsom:"a,omitempty,string" json:"-"`
	Name int  `json:",string"`
	Id uint8  `jsom:"-" json:"A,omitempty"`
	AA string  `jsom:"<t>,string" json:"a"`
}

type GA93 struct {
	GA50 
	GA65 
	*gA41 `json:"-"`
	*GA83 `json:"A,omitempty"`
	Y int  `jsom:"B" json:"A,omitempty"`
}

type GA94 struct {
	*GA50 
	B bool  `json:"decoy"`
	A *bool  `json:"decoy"`
	x float64  `jsom:",omitempty" json:"A,omitempty"`
	D uint8  `json:",string"`
	X NInt  `jsom:"aA" json:"-"`
	Aa [0]int  `jsom:"ſ" json:"A,omitempty"`
	K string  `jsom:"aA,omitempty" json:"a"`
}

type gA95 struct {
	a int  `jsom:"ß" json:",string"`
	ID int  `jsom:"é"`
	gA46 `json:"decoy"`
	Aa **int  `json:"A,omitempty"`
}

type gA96 struct {
	GA45 `json:"a"`
	Name []string  `json:"decoy"`
	*GA40 `json:"-"`
	*GA63 
	É uint64  `jsom:"-," json:"A,omitempty"`
}

type GA97 struct {
	*gA41 
	S int8  `jsom:"a,omitempty"`
	K int  `jsom:"-" json:"decoy"`
	D *int  `jsom:"x y" json:"a"`
}

type GA98 struct {
	X uint8  `json:"a"`
	aa string  `jsom:"name" json:"a"`
	AA int64  `jsom:"é"`
	*GA80 `json:"-"`
	S int  `json:"decoy"`
	Ks bool  `json:"a"`
	GA42 
}

type GA99 struct {
	gnum  `jsom:"x y,omitempty" json:"A,omitempty"`
	K NStr  `json:"-"`
	*GA66 `json:"-"`
	S uint64  
}

type GA100 struct {
	*GA44 
	C float64  `jsom:"aA,string" json:"-"`
	S uint64  `jsom:"-" json:"decoy"`
	AA bool  `jsom:"0" json:"A,omitempty"`
	*gA46 
	GHook  `jsom:"ſ" json:"-"`
}

type GA101 struct {
	GA100 `json:"-"`
	*gA105 `json:"-"`
}

type GA102 struct {
	ID string  `jsom:"B"`
	GA24 
	*GA50 
	*gnum  
}

type GA103 struct {
	GA67 `jsom:"K" json:"A,omitempty"`
	S map[string]*NInt  `jsom:",omitempty"`
	a uint64  `jsom:"a\\b" json:",string"`
}

type GA104 struct {
	GA100 
	GA37 
	gA46 `json:"A,omitempty"`
	*GA104 `jsom:"b" json:"decoy"`
}

type gA105 struct {
	*GA66 
	GA80 
	Aa int  
	*GA67 `jsom:"b"`
	*gA18 `json:"-"`
}

type GA106 struct {
	GA86 `json:"A,omitempty"`
	K [2]int  
}

type GA107 struct {
	*GA47 
	GA66 
	É int64  `jsom:"-" json:",string"`
	*gA59 
	Name string  `jsom:"K,omitempty" json:"a"`
}

type GA108 struct {
	*gA6 
	Name float64  `json:"A,omitempty"`
	GA66 `jsom:"a,omitempty" json:"-"`
	GA47 `json:"A,omitempty"`
	É uint8  `jsom:"a,string"`
}

type gA109 struct {
	B NInt  `json:",string"`
	AA struct{}  
	X int8  `json:"A,omitempty"`
	D uint64  `jsom:"b,string" json:"a"`
	É int64  `json:"a"`
	Aa json.Number  `jsom:",omitempty" json:"A,omitempty"`
	C uint8  `json:"-"`
	Id float32  `json:"A,omitempty"`
	ID []byte  `jsom:"k"`
	gA31 `json:"decoy"`
	S [0]int  `jsom:"c" json:"decoy"`
	*gA54 `json:"-"`
}

type GA110 struct {
	Id []int  `json:"decoy"`
	GA38 `json:"A,omitempty"`
	Aa string  `jsom:"A,omitempty,string" json:"a"`
}

type gA111 struct {
	*gA59 
	*gA111 `json:"-"`
	*GA49 `jsom:"K"`
	*GA20 `jsom:"-" json:"A,omitempty"`
}

type gA112 struct {
	GA53 `json:"a"`
	*gA54 `json:"-"`
	C int8  `jsom:"-" json:",string"`
	*GA80 `json:"a"`
}

type gA113 struct {
	GA83 `jsom:"B,omitempty"`
	B interface{}  `jsom:"A,omitempty" json:"A,omitempty"`
	Name struct{}  `jsom:"B" json:"A,omitempty"`
	gA11 `json:"-"`
}

type GA114 struct {
	K int64  `jsom:"a-b,string,omitempty" json:"-"`
	GA72 `jsom:"c" json:"-"`
	S string  `json:"decoy"`
	*GA102 `json:"-"`
	ID bool  `jsom:"A,string" json:"a"`
	*GA114 `json:"decoy"`
}

type gA115 struct {
	gA59 `json:"decoy"`
	Name uint8  `json:"-"`
	c int64  `jsom:"é" json:"a"`
}

type gA116 struct {
	GA45 `json:"A,omitempty"`
	AB *bool  `json:"a"`
	GA22 
	Aa uint64  `json:"decoy"`
	*GA102 `json:"-"`
	Id uint8  `json:"a"`
	GA82 `json:"a"`
}

type GA117 struct {
	K uint8  `jsom:"0,omitempty,string" json:"-"`
	É NInt  
	AA NInt  `jsom:"-," json:"A,omitempty"`
	B bool  `jsom:"é,string" json:",string"`
	*GA65 `jsom:"b" json:"-"`
	Y float64  `jsom:"é,string,omitempty" json:"A,omitempty"`
	GA81 `json:"decoy"`
}

type gA118 struct {
	É int8  `jsom:"a,omitempty" json:",string"`
	GA65 `jsom:"b"`
	Id uint64  `jsom:",omitempty" json:",string"`
	gA12 `json:"decoy"`
	Y []int  
	C int8  `jsom:",omitempty" json:",string"`
	gA41 `jsom:",omitempty" json:"A,omitempty"`
}

type GA119 struct {
	GA10 
	É NInt  `jsom:"D"`
	GA47 `json:"A,omitempty"`
	GA56 `json:"decoy"`
	*gA39 `json:"-"`
	Y map[string]int  `jsom:"c" json:"-"`
}

type gA120 struct {
	AA uint8  `json:"decoy"`
	*gA120 
	A *string  
	AB string  `json:"-"`
	*gA111 `json:"-"`
	X uint64  `json:"decoy"`
	c string  `jsom:"x y,omitempty,string" json:"a"`
	Ks int8  
	k string  `jsom:"aA,omitempty,string" json:"a"`
	Aa []byte  `json:"decoy"`
	D []byte  `jsom:",omitempty"`
	GA103 `json:"-"`
	*gA60 `json:"-"`
}

type GA121 struct {
	S string  `jsom:"A"`
	K [2]int  
	GA100 
	k string  `jsom:"A" json:"decoy"`
	Ks *bool  `jsom:"A" json:"A,omitempty"`
	b string  `json:"-"`
	Id int  
	Name *float64  `jsom:"a.b,omitempty"`
	*GA80 
	C **int  `json:"a"`
}

type GA122 struct {
	*GA83 
	GA66 `json:"A,omitempty"`
	k int64  `json:"-"`
}

type GA123 struct {
	Aa NInt  `json:"A,omitempty"`
	GA71 
	Ks NInt  `json:"A,omitempty"`
	GA19 `json:"decoy"`
	C NInt  `json:"A,omitempty"`
	AB TStr  `jsom:"-," json:"-"`
}

type GA124 struct {
	GA98 
	GA81 `json:"decoy"`
	*GA124 
	gA54 
}

type GA125 struct {
	Id string  `jsom:"é,omitempty" json:",string"`
	S int8  `jsom:"b,omitempty"`
	D []string  `jsom:",omitempty"`
	Aa map[string]*NInt  `jsom:",omitempty" json:"A,omitempty"`
	*gA48 
	x float64  `json:"A,omitempty"`
	É float64  `json:",string"`
}

type GA126 struct {
	GA83 `json:"-"`
	B int  `json:"-"`
	GA52 `jsom:",omitempty" json:"decoy"`
	*GA77 
	K float32  `jsom:"id,string" json:"a"`
	gA59 `json:"A,omitempty"`
}

type gA127 struct {
	gA61 `json:"-"`
	Ks map[string]*NInt  `jsom:"-," json:"-"`
	D int64  `jsom:",string" json:"A,omitempty"`
}

type GA128 struct {
	Y int  `jsom:"<t>,omitempty"`
	Name []byte  `jsom:"ks,omitempty"`
	*GA128 `json:"decoy"`
}

type gA129 struct {
	b int64  `jsom:"x y,omitempty,string"`
	ID int  `jsom:"a,omitempty" json:"A,omitempty"`
	*GA16 
	Aa uint64  `json:"decoy"`
}

type gA130 struct {
	É NInt  `json:",string"`
	gA54 
	Y int  `json:"a"`
}

type GA131 struct {
	gA64 
	a int8  `jsom:",omitempty"`
	Aa int8  `jsom:",omitempty"`
	K int  `json:"a"`
	GA102 `jsom:"a"`
	*GA66 `json:"a"`
	X int64  `jsom:"0"`
	A uint64  `jsom:"aA,string"`
	Y bool  `jsom:",omitempty,string" json:"-"`
}

type gA132 struct {
	GA14 `json:"-"`
	GA3 `json:"decoy"`
}

type GA133 struct {
	*gA111 
	S *TStruct  `json:"decoy"`
	GNum  `jsom:",omitempty" json:"a"`
	AA int  `json:"a"`
	GA79 
	C string  
}

type gA134 struct {
	C string  `json:"-"`
	Id []int  `json:"A,omitempty"`
	K NInt  `json:"decoy"`
	gA109 `jsom:"-"`
}

type GA135 struct {
	S [0]int  `jsom:"name"`
	Ks float32  `json:"-"`
	B float32  `json:"decoy"`
	Aa string  `jsom:"x y,string" json:"decoy"`
	AB uint64  `jsom:"K,omitempty,string" json:"A,omitempty"`
	D uint8  `json:",string"`
	*GA128 
}

type GA136 struct {
	gA29 `json:"a"`
	Y **int  
	S *int  `jsom:",omitempty" json:"decoy"`
	Ks uint8  `jsom:"ſ,omitempty" json:",string"`
	GA43 `json:"-"`
	gA30 `json:"A,omitempty"`
}

type gA137 struct {
	*GA138 `json:"A,omitempty"`
	Y NInt  `jsom:"D" json:"-"`
	k int8  `json:"a"`
	gA59 `jsom:"0,omitempty" json:"A,omitempty"`
	*GA67 `jsom:",omitempty" json:"-"`
	AA int8  `json:"decoy"`
}

type GA138 struct {
	C int  
	GA104 `json:"A,omitempty"`
	gA95 `json:"a"`
}

type GA139 struct {
	C int  
	AB int  `jsom:"-" json:"decoy"`
	a string  `jsom:",,omitempty"`
	GA69 `json:"A,omitempty"`
	id NInt  `jsom:",omitempty,string" json:"a"`
	ID *string  `json:"-"`
}

type gA140 struct {
	*GA97 
	gA118 `jsom:"a.b" json:"-"`
	gA111 `json:"a"`
	*gA140 `json:"-"`
}

type GA141 struct {
	C int  `json:"-"`
	Id uint8  `jsom:",omitempty" json:",string"`
	AB [0]int  
	GHook  `json:"A,omitempty"`
	Y float64  `jsom:"-" json:"a"`
	x int8  `jsom:"a,omitempty"`
	*GA43 `json:"A,omitempty"`
}

type GA142 struct {
	gA137 `jsom:"é" json:"decoy"`
	B int64  `jsom:"ß,omitempty" json:"a"`
	S struct{}  `json:"decoy"`
	GA125 `json:"A,omitempty"`
	*gA143 `json:"-"`
}

type gA143 struct {
	Ks uint64  `json:"decoy"`
	X NInt  `jsom:"aA" json:"decoy"`
	*gA73 
	S int  `jsom:"ks,omitempty,string" json:",string"`
}

type GA144 struct {
	Id string  `jsom:",string" json:"-"`
	*gA61 `json:"-"`
	C float32  `jsom:",omitempty" json:"A,omitempty"`
	k NInt  `json:"A,omitempty"`
	*gA62 
	Name string  `jsom:"id" json:"decoy"`
}

type GA145 struct {
	X NInt  `jsom:"aA" json:"A,omitempty"`
	Name NStr  `json:"a"`
	ID float64  `jsom:"b,string" json:"decoy"`
	B int64  `jsom:"-,"`
	*GA139 
	GA16 `json:"decoy"`
	Y *bool  `jsom:"name" json:"decoy"`
	GA99 `jsom:"aA,omitempty"`
}

type GA146 struct {
	X bool  
	*GA146 
	S []byte  
	A float64  `jsom:"D,omitempty,string" json:"-"`
	Y uint8  `jsom:",omitempty" json:"a"`
	GA69 
	gA11 `jsom:"a\\b" json:"A,omitempty"`
	É int8  `jsom:",omitempty" json:",string"`
}

type GA147 struct {
	Id **int  `jsom:",omitempty" json:"a"`
	B bool  `jsom:"-," json:"A,omitempty"`
	AB int  `jsom:"é,omitempty" json:"a"`
	É float32  `jsom:"id" json:"-"`
	*GA144 `json:"decoy"`
	Ks *int  `jsom:"-," json:"A,omitempty"`
	ID int  `json:"-"`
	*gA127 
	AA int64  `json:"A,omitempty"`
	C string  
}

type gA148 struct {
	gA59 
	c int  `jsom:"b,omitempty,string" json:"-"`
	ID map[string]int  `jsom:"id"`
	D uint8  `jsom:"-" json:",string"`
	B string  `jsom:"a.b,string" json:"A,omitempty"`
	k bool  `jsom:"é,string"`
	gnum  `json:"A,omitempty"`
	AA *int  `jsom:"c" json:"A,omitempty"`
	C int8  `jsom:"-"`
	Name int  `json:"a"`
	A JInt  `json:"a"`
	Ks []string  
}

type GA149 struct {
	Name *float64  `jsom:"-," json:"a"`
	gA109 `json:"-"`
	gA62 
	gA41 `jsom:"ſ,omitempty" json:"decoy"`
}

type GA150 struct {
	K float64  `json:"decoy"`
	GA80 `json:"a"`
	GA141 `json:"decoy"`
	GA81 
	B *int  `json:"decoy"`
}

type gA151 struct {
	AB uint8  `json:",string"`
	*GA119 `json:"A,omitempty"`
	C NInt  `jsom:"a-b,string" json:",string"`
	Y NInt  `jsom:"k" json:",string"`
}

type gA152 struct {
	GA66 
	GA69 `json:"decoy"`
	D bool  
	x float64  `json:",string"`
}

type GA153 struct {
	*gA113 
	*GA153 
	Name [2]int  `json:"decoy"`
	S int  `jsom:"D,omitempty" json:"-"`
	C *float64  `json:"decoy"`
	AA bool  `json:"A,omitempty"`
	gA152 `json:"a"`
	ID map[string]*NInt  `json:"decoy"`
	*GA106 `jsom:"-"`
	K string  `jsom:",omitempty,string" json:"a"`
}

type GA154 struct {
	AB map[string]int  `jsom:"-" json:"A,omitempty"`
	k bool  `json:",string"`
	*gA143 `json:"-"`
	*gA33 
	K **int  `jsom:"B,omitempty" json:"-"`
	X int64  
	B interface{}  `jsom:"name"`
	Id int  `jsom:"k" json:"a"`
	*GA102 `json:"a"`
	D int  `jsom:"ks,omitempty" json:",string"`
	ID string  `json:"A,omitempty"`
	Name string  `jsom:"id" json:"a"`
}

type gA155 struct {
	Aa float32  `jsom:"k,omitempty" json:"A,omitempty"`
	K bool  `json:"A,omitempty"`
	*gA68 `json:"-"`
	a float64  `json:",string"`
}

type gA156 struct {
	D int8  `jsom:",omitempty" json:"A,omitempty"`
	AB uint64  `jsom:"ß,string" json:"a"`
	*GA49 `json:"decoy"`
	B float32  `json:"decoy"`
	gA58 `json:"-"`
}

type GA157 struct {
	Id []string  `jsom:"a.b,omitempty" json:"-"`
	gA155 `jsom:",omitempty" json:"decoy"`
	gnum  `json:"A,omitempty"`
	gA48 `json:"decoy"`
	ID NInt  `jsom: "a" json:"decoy"`
	*GA125 `json:"-"`
	a string  `jsom:",omitempty" json:"-"`
}

type gA158 struct {
	*GA163 `json:"A,omitempty"`
}

type GA159 struct {
	x NStr  `jsom:"a" json:"-"`
	gA54 
	*GA159 `jsom:"-"`
	*gA59 
	AA **int  `json:"-"`
	Aa float32  `jsom:"id" json:"A,omitempty"`
	K string  
	B *string  `jsom:"<t>"`
}

type GA160 struct {
	B NInt  `jsom:"a" json:"a"`
	AA *TStruct  
	*gA156 
}

type GA161 struct {
	ID int  
	*GA161 `json:"-"`
	AB float64  `json:"-"`
	GA141 `json:"A,omitempty"`
	Aa float32  `jsom:"a,omitempty" json:"a"`
	Name int64  `jsom:"K,string" json:"a"`
	Y []string  `jsom:"A"`
	B int  `jsom:"-," json:"-"`
}

type gA162 struct {
	gA155 `jsom:",omitempty" json:"-"`
	GHook  `json:"a"`
	Id NInt  `jsom:"ſ" json:"A,omitempty"`
}

type GA163 struct {
	*GA163 `jsom:"a,omitempty" json:"-"`
	AA [2]int  `json:"-"`
	*gA167 `json:"-"`
	Aa NInt  `json:"a"`
	A struct{}  `json:"a"`
}

type GA164 struct {
	*gA158 
	Aa float64  
	Ks int64  `jsom:"ß,string,omitempty" json:"decoy"`
}

type GA165 struct {
	gA156 `jsom:"b,omitempty" json:"a"`
}

type GA166 struct {
	K *TStruct  
	*GA171 
	GA35 `json:"decoy"`
	Aa *string  `jsom:"<t>,omitempty" json:"-"`
}

type gA167 struct {
	S uint8  `jsom:"-" json:",string"`
	gA151 `json:"a"`
}

type gA168 struct {
	GA42 
	GA56 
	AB int  `jsom:",string"`
	x NStr  `json:"decoy"`
	AA NStr  `json:"-"`
}

type GA169 struct {
	Id int  `jsom:"D" json:",string"`
	X uint8  `jsom:"a,omitempty,string"`
	id NStr  
	gA130 `jsom:"a\\b"`
}

type gA170 struct {
	gnum  
	D string  `json:"a"`
	Aa **int  `jsom:"B"`
	Id int  `json:"A,omitempty"`
	*gA170 
}

type GA171 struct {
	ID string  `jsom:"aA,omitempty" json:"a"`
	gA140 `json:"A,omitempty"`
	GA102 `json:"-"`
	x int  `json:"decoy"`
	gA130 `json:"-"`
	gnum  `json:"a"`
	D NInt  `jsom:"x y,omitempty,string"`
	A NStr  `jsom:",string" json:"A,omitempty"`
}

type gA172 struct {
	gA143 `json:"decoy"`
	É int8  `jsom:",string"`
	Y string  `json:",string"`
	B TStr  `json:"a"`
	*GA125 
}

type GA173 struct {
	*gA59 `json:"-"`
	AB int  `jsom:a json:"a"`
	gA23 `jsom:"K,omitempty" json:"A,omitempty"`
	Name bool  `json:",string"`
	GA56 `json:"A,omitempty"`
}

type GA174 struct {
	*gA178 `json:"-"`
	Id float64  `json:"A,omitempty"`
}

type gA175 struct {
	GA133 `json:"-"`
	gA140 `jsom:"A,omitempty" json:"-"`
}

type GA176 struct {
	GA147 `json:"A,omitempty"`
}

type GA177 struct {
	C *bool  `jsom:"-," json:"decoy"`
	*GA43 
	ID float32  `jsom:"é" json:"-"`
}

type gA178 struct {
	*GA119 `jsom:"a\\b" json:"-"`
	C int64  `json:"-"`
	GA146 `json:"-"`
}

type GA179 struct {
	gA34 
	S int  `jsom:"c" json:"a"`
	*GA53 `jsom:",omitempty" json:"decoy"`
	Aa NInt  `jsom:"id,string" json:"decoy"`
	GNum  `jsom:"a\\b"`
	GA119 `json:"A,omitempty"`
}

type gA180 struct {
	*gA180 `json:"-"`
	gnum  `json:"A,omitempty"`
}

type GA181 struct {
	GA141 `json:"-"`
	*gA118 `json:"-"`
	AB int  `json:"a"`
}

type gA182 struct {
	gface  `json:"A,omitempty"`
	B NInt  `jsom:",string" json:"A,omitempty"`
	Id float64  
	C [2]int  
	*GA43 `json:"a"`
	S TStr  `json:"A,omitempty"`
	*GA184 `json:"A,omitempty"`
}

type GA183 struct {
	gA162 `json:"decoy"`
	gA148 `json:"decoy"`
	*GA66 `json:"decoy"`
	GA149 `json:"a"`
}

type GA184 struct {
	*gA111 
}

type GA185 struct {
	D int8  `json:"a"`
	Id **int  `json:"-"`
	GA42 `json:"decoy"`
	C int8  `json:"decoy"`
	B interface{}  `jsom:"D"`
}

type gA186 struct {
	*gA178 
	gA175 
	*gA189 `json:"-"`
	*gA151 
}

type GA187 struct {
	Ks *string  `jsom:"D" json:"-"`
	k int  `json:",string"`
	Name int  `jsom:"é,omitempty" json:"-"`
	AB int64  `json:"-"`
	AA NInt  `jsom:"name,string,omitempty" json:",string"`
	*GA45 `jsom:"a\\b" json:"-"`
	*gA17 
	aa int  `json:"-"`
	A NStr  `jsom:",string" json:"-"`
	Id int64  `jsom:"D,omitempty" json:"decoy"`
	S *string  `jsom:",omitempty"`
	Aa int  `jsom:"b,omitempty" json:"A,omitempty"`
	X NInt  `json:"a"`
	C []string  `json:"A,omitempty"`
}

type GA188 struct {
	GA183 `json:"-"`
	x int8  `json:",string"`
	*GA146 `jsom:"a" json:"-"`
	GFace  `json:"decoy"`
	id uint8  `jsom:"b"`
	gface  `json:"a"`
}

type gA189 struct {
	ID float32  `jsom:"a.b,string" json:",string"`
	*gA111 
	GA97 
	gA2 `json:"A,omitempty"`
}

type GA190 struct {
	AA NInt  `jsom:"K"`
	GA149 `json:"-"`
	Name *float64  `jsom:"k,omitempty" json:"A,omitempty"`
}

type GA191 struct {
	GA67 `jsom:"-"`
	GA53 `json:"-"`
	GA45 `json:"-"`
	GA66 `jsom:"-"`
}

type GA192 struct {
	gA88 `json:"a"`
	Ks *bool  `jsom:",omitempty" json:"a"`
	*GA83 `json:"decoy"`
	gA30 
}

type gA193 struct {
	AA int64  `jsom:"id,omitempty" json:",string"`
	*GA100 `jsom:"c" json:"A,omitempty"`
	X float64  `jsom:"a.b,omitempty,string" json:"a"`
}

type GA194 struct {
	b float64  `json:"a"`
	*GA44 
	GA25 
	*GA43 `json:"A,omitempty"`
	GA0 `json:"A,omitempty"`
	Y *string  `jsom:"-" json:"a"`
	X int  `jsom:"a" jsom:"b" json:",string"`
	AA NInt  `json:"A,omitempty"`
}

type gA195 struct {
	*gA152 `json:"-"`
	GHook  `jsom:"-" json:"-"`
	GA81 `json:"decoy"`
}

type GA196 struct {
	K string  `json:"a"`
	ID *string  `json:"a"`
	*gA199 
	gA6 `json:"decoy"`
	*GA43 `json:"a"`
}

type GA197 struct {
	GA15 `json:"a"`
	AA int64  `json:"a"`
}

type gA198 struct {
	GA177 `jsom:"-" json:"A,omitempty"`
	*GA203 
}

type gA199 struct {
	*GA49 `json:"decoy"`
	k string  `jsom:",string" json:",string"`
	*GA13 `json:"A,omitempty"`
	GA51 
	D string  `json:",string"`
}

type GA200 struct {
	*gA130 `json:"-"`
	Name float64  `jsom:"-" json:"A,omitempty"`
	gA199 `json:"a"`
	gA168 `json:"decoy"`
	*GA125 `json:"A,omitempty"`
}

type gA201 struct {
	*gA206 
	*GA56 `json:"-"`
	gmap  
}

type GA202 struct {
	GA67 `jsom:"A,omitempty"`
	Name string  
	gA61 `json:"A,omitempty"`
}

type GA203 struct {
	*GNum  `jsom:"K"`
	S uint8  
	c string  `json:"-"`
	gA46 `json:"-"`
	B int64  `jsom:"x y" json:"A,omitempty"`
}

type GA204 struct {
	GA43 `jsom:",omitempty"`
	X map[string]*NInt  `jsom:"<t>" json:"decoy"`
	Ks float32  `jsom:"-"`
	A *TStruct  `json:"A,omitempty"`
	S int  `jsom:"b" json:"A,omitempty"`
	GA32 `json:"a"`
	GA3 
	GA53 `jsom:"a\\b" json:"-"`
}

type gA205 struct {
	GA202 
}

type gA206 struct {
	X JInt  
	gA201 `json:"a"`
	Aa bool  `jsom:"c,string" json:"A,omitempty"`
	GIface  `json:"A,omitempty"`
	D NStr  `json:"a"`
	S NInt  `json:"a"`
}

type GA207 struct {
	GA192 
	gA152 `jsom:"a\\b" json:"A,omitempty"`
	*GA212 `json:"-"`
}

type GA208 struct {
	*gA23 `json:"-"`
}

type GA209 struct {
	*GA20 `jsom:"x y"`
	AB string  
	*gA59 
	*GA83 `json:"decoy"`
}

type gA210 struct {
	GA49 
	*gA210 `json:"-"`
}

type GA211 struct {
	GA100 `json:"decoy"`
	gA127 `json:"A,omitempty"`
	Name map[string]int  `jsom:"D" json:"decoy"`
	Id []int  `jsom:"A,omitempty" json:"A,omitempty"`
	Y *TStruct  
	S uint8  `json:"A,omitempty"`
	AB string  `json:"-"`
	*GA38 `json:"A,omitempty"`
	B bool  `jsom:"-,"`
	A string  `jsom:"-," json:"a"`
	aa float32  `jsom:"A,omitempty" json:"A,omitempty"`
}

type GA212 struct {
	K interface{}  `json:"a"`
	Id string  `jsom:"k,omitempty,string" json:",string"`
	C string  `jsom:"b,omitempty" json:"decoy"`
	GHook  `json:"decoy"`
	GA159 `json:"-"`
	X string  `jsom:",string" json:"decoy"`
}

type GA213 struct {
	gA34 
	É bool  `json:"decoy"`
	gA55 `json:"A,omitempty"`
	*GA213 `jsom:"<t>" json:"decoy"`
	AB float32  `json:",string"`
	GA14 `json:"decoy"`
}

type gA214 struct {
	b uint64  `jsom:"a-b,omitempty" json:",string"`
	GA192 `json:"decoy"`
	gA178 `json:"-"`
}

type GA215 struct {
	GA197 `json:"a"`
	gA182 
	S map[string]*NInt  `json:"A,omitempty"`
	Y []int  `jsom:"0,omitempty" json:"-"`
	*GA191 
	Ks JInt  `json:"decoy"`
}

type GA216 struct {
	*GA71 `json:"-"`
	*GA14 
	D int  `jsom:"" json:"A,omitempty"`
	S string  `xml:"a" json:"-"`
	*GA173 `json:"a"`
	C *float64  `jsom:"<t>,omitempty" json:"a"`
}

type GA217 struct {
	*gA199 `json:"-"`
	D int  `json:"decoy"`
	GA83 `json:"-"`
	Y float32  `jsom:"c,string"`
	gA168 
	A uint64  `jsom:"A,omitempty" json:"decoy"`
	S int64  `jsom:",omitempty,string" json:"A,omitempty"`
	Id int  `jsom:"é,string,omitempty,string" json:"a"`
	K string  `jsom:"name,omitempty" json:"-"`
}

type GA218 struct {
	AB float64  `json:"a"`
	AA bool  `jsom:"D,omitempty" json:"decoy"`
	x float64  `json:"a"`
	GA173 `json:"decoy"`
	GA35 `json:"a"`
	gA111 `json:"decoy"`
}

type gA219 struct {
	GA110 `json:"a"`
	*GA203 
	gA127 
	B NStr  `jsom:"ks,string,omitempty" json:"-"`
}

type GA220 struct {
	aa string  `jsom:"B"`
	Name float32  `json:"a"`
	C int8  `jsom:",omitempty" json:"a"`
	Aa string  `json:"decoy"`
	GA45 `json:"A,omitempty"`
}

type gA221 struct {
	AB int64  `jsom:"ſ,omitempty" json:"decoy"`
	GA194 
}

type GA222 struct {
	Y float64  `jsom:",omitempty,string" json:"A,omitempty"`
	GA141 `json:"A,omitempty"`
	A TStr  `jsom:"K" json:"A,omitempty"`
}

type GA223 struct {
	A float64  `json:",string"`
	B string  `json:"a"`
	GA44 `jsom:"-" json:"-"`
	GA36 `json:"a"`
}

type GA224 struct {
	GA125 `json:"-"`
	Ks struct{}  `jsom:"-," json:"decoy"`
	*GA194 `jsom:"a-b" json:"A,omitempty"`
	*gA109 
	*GA177 `json:"-"`
}

type gA225 struct {
	*GA0 `json:"decoy"`
	*GA227 `json:"decoy"`
	AB bool  
}

type gA226 struct {
	GA204 `json:"A,omitempty"`
	GA161 `json:"decoy"`
	Aa float32  `json:"A,omitempty"`
	ID map[string]int  `json:"A,omitempty"`
	K bool  `jsom:"ks,omitempty" json:"a"`
	AA *bool  `json:"decoy"`
	*GNum  `jsom:"-"`
}

type GA227 struct {
	*GA32 `json:"a"`
	GA50 `jsom:"B" json:"A,omitempty"`
	a string  `jsom:"b,omitempty,string" json:"a"`
	*GA57 `jsom:"0"`
	Ks NStr  `jsom:"k,omitempty" json:"A,omitempty"`
}

type GA228 struct {
	gA31 `jsom:"ks" json:"a"`
	B float32  `jsom:"id" json:"-"`
	Id uint8  `jsom:",omitempty,string" json:"-"`
}

type gA229 struct {
	D map[string]int  `jsom:"<t>,omitempty" json:"decoy"`
	C int8  `jsom:"b" json:"-"`
	AA map[string]int  `json:"decoy"`
	Id bool  
	gnum  `json:"a"`
	*gA6 
	Name int  `jsom:"-" json:"A,omitempty"`
	a float64  `jsom:"-," json:"a"`
}

type gA230 struct {
	A bool  `jsom:",omitempty" json:"-"`
	AA int  `json:"-"`
	D float64  `jsom:",omitempty" json:"A,omitempty"`
	Aa [2]int  `jsom:"x y,omitempty" json:"-"`
	*gA182 `json:"-"`
	Id []string  
}

type GA231 struct {
	GA67 `json:"decoy"`
	Id string  `jsom:"A,omitempty" json:",string"`
	b string  `json:"decoy"`
	gA182 `jsom:"ß" json:"a"`
	*GA159 `json:"decoy"`
	GA44 
}

type gA232 struct {
	*gA232 `json:"-"`
	*GA220 `jsom:"<t>"`
	GA191 
	GA231 
	Ks *TStruct  `json:"decoy"`
}

type gA233 struct {
	GNum  
}

type GA234 struct {
	*gA73 
	Y string  `jsom:"é,string" json:"decoy"`
	gA127 `json:"a"`
	É uint8  `json:"A,omitempty"`
}

type gA235 struct {
	X map[string]*NInt  
	id int  `json:"decoy"`
	ID interface{}  `jsom:",omitempty" json:"-"`
	A string  
	Id float64  `json:"a"`
	Ks interface{}  `xml:"a"`
	S *bool  `json:"A,omitempty"`
	gA221 `json:"decoy"`
	AB int64  `jsom:"c" json:"-"`
	Aa string  `jsom:"<t>,omitempty,string"`
	Name [2]int  `json:"a"`
}

type GA236 struct {
	Ks []byte  `jsom:"ks" json:"decoy"`
	B uint64  `json:"-"`
	Id uint64  `jsom:"b,omitempty" json:"A,omitempty"`
	GA173 `jsom:"é"`
	GStrs  `json:"-"`
}

type GA237 struct {
	ID float32  
	gA199 `json:"-"`
	Name **int  `json:"decoy"`
	AA float64  
	gA112 
	*gA225 `json:"-"`
}

type GA238 struct {
	*GA238 
	Name JInt  `json:"A,omitempty"`
	GFace  
	Ks float32  `jsom:"0,string" json:",string"`
	Y int8  `jsom:"A,omitempty"`
}

type gA239 struct {
	GA49 `json:"a"`
	B uint64  `json:"-"`
	GHook  
	A uint64  `json:"decoy"`
	Y NStr  `jsom:"k,omitempty"`
	X string  
	gA46 `json:"a"`
}

type GA240 struct {
	ID int  `json:"A,omitempty"`
	GA187 `json:"a"`
	*GA207 `json:"a"`
	Id int64  `jsom:"K,omitempty,string" json:"a"`
}

type GA241 struct {
	C **int  `json:"a"`
	GA141 `jsom:"ks,omitempty" json:"decoy"`
	Aa string  `json:",string"`
	B int  `jsom:"B,omitempty" json:"A,omitempty"`
	*GA241 `jsom:"ks" json:"decoy"`
	Y int8  `json:"-"`
	c int  `json:"a"`
	X int8  `jsom:"-," json:"-"`
}

type GA242 struct {
	*gA199 
	GA187 `json:"decoy"`
	a int  `json:"a"`
	B *string  `json:"decoy"`
	Y *int  `jsom:"a.b"`
	É float32  `json:"A,omitempty"`
}

type GA243 struct {
	gA130 `json:"-"`
	*GA146 `json:"-"`
	a int  `jsom:"-," json:"-"`
}

type gA244 struct {
	K int8  `json:"decoy"`
	*GA44 `jsom:"A" json:"decoy"`
	AB uint64  `jsom:"k,string" json:"A,omitempty"`
	É NStr  `json:"a"`
	A int64  `jsom:"b" json:"A,omitempty"`
	B NStr  `jsom:"D" json:"-"`
	GA202 `jsom:",omitempty"`
	GHook  `json:"decoy"`
	X float32  `json:",string"`
}

type GA245 struct {
	GA94 `jsom:",omitempty"`
	S struct{}  `jsom:"b"`
	Name NStr  `json:"a"`
}

type GA246 struct {
	*gA168 
	Ks TStr  `jsom:"x y,omitempty" json:"a"`
	A map[string]*NInt  `json:"decoy"`
	GHook  `jsom:"B"`
}

type GA247 struct {
	*gA46 `json:"-"`
	*GA250 `json:"-"`
	ID int8  `jsom:"id,string" json:"a"`
}

type GA248 struct {
	AA int8  `json:"-"`
	ID float32  `jsom:"" json:"-"`
	AB float32  `jsom:"c" json:"A,omitempty"`
	K int64  `json:",string"`
	Aa NInt  `jsom:",omitempty,string" json:"-"`
	*GA223 `jsom:"x y" json:"decoy"`
}

type GA249 struct {
	Id bool  `jsom:"b" json:"-"`
	GA53 `json:"a"`
	A string  `json:"A,omitempty"`
}

type GA250 struct {
	*gA115 `json:"-"`
	*gA254 `json:"-"`
	*GA203 `jsom:"aA,omitempty" json:"-"`
	Id NStr  `json:"-"`
	Y NStr  
}

type GA251 struct {
	Id float64  `jsom:",omitempty,string" json:",string"`
	Ks *string  `jsom:"-"`
	gA48 `json:"A,omitempty"`
	AB float32  `jsom:",string,string" json:"-"`
	É NStr  `jsom:"-," json:"a"`
	D []int  `jsom:"a" json:"a"`
	B string  `jsom:"-" json:"decoy"`
	X uint64  `jsom:"a-b" json:"decoy"`
	C int64  `xml:"a" json:"A,omitempty"`
	AA int8  `json:"decoy"`
	S []string  `json:"a"`
}

type GA252 struct {
	*gA244 `json:"-"`
	gA235 
	*GA255 `json:"-"`
	*GA224 
}

type gA253 struct {
	*GA49 
	A *float64  `jsom:",omitempty" json:"A,omitempty"`
}

type gA254 struct {
	*GA211 `json:"a"`
	GA212 `json:"decoy"`
	X int  `json:"a"`
}

type GA255 struct {
	K string  `jsom:"-" json:"decoy"`
	GA202 `json:"-"`
	GA119 
}

type gA256 struct {
	GA90 `json:"-"`
}

type gA257 struct {
	*GA19 `json:"-"`
	Y []int  `jsom:",omitempty"`
	*gA257 `jsom:"-" json:"-"`
	*GA262 `json:"A,omitempty"`
}

type gA258 struct {
	gA68 `jsom:"0,omitempty"`
	GA40 `json:"decoy"`
}

type gA259 struct {
	gA62 `json:"-"`
	AB int  `jsom:"K,omitempty"`
	*gA259 `json:"-"`
	*gA260 
	D string  `jsom:",string"`
}

type gA260 struct {
	D string  `json:"-"`
	gA225 
	Y uint64  `jsom:"c,omitempty" json:"-"`
	gA233 
	B JInt  `json:"decoy"`
	K float32  `json:",string"`
}

type gA261 struct {
	Ks float64  `json:"a"`
	gA18 `json:"decoy"`
	B bool  `jsom:"x y,omitempty" json:"A,omitempty"`
	AB NStr  `jsom:"-" json:"a"`
	D float64  `jsom:"B,string" json:"decoy"`
	GA52 `json:"decoy"`
	c int8  `json:"A,omitempty"`
	Id bool  `jsom:"ß" json:"-"`
}

type GA262 struct {
	GA53 `json:"a"`
	AB int8  `json:"A,omitempty"`
}

type GA263 struct {
	aa uint8  `jsom:"ks,omitempty" json:",string"`
	X []string  `jsom:"<t>,omitempty"`
	*GA263 `json:"-"`
}

type GA264 struct {
	B int64  `jsom:"<t>" json:"-"`
	gA257 `json:"-"`
	GA179 
	AB *int  `jsom:"B,omitempty"`
}

type GA265 struct {
	gA87 `json:"-"`
	*gA74 `json:"-"`
	gA244 `json:"-"`
}

type GA266 struct {
	*gA259 `jsom:"-"`
	*gA257 
	aa string  `jsom:"a-b,omitempty,string" json:"-"`
	B int64  `jsom:"-"`
	GA1 `json:"a"`
	*GA255 `jsom:"<t>" json:"a"`
}

type GA267 struct {
	AA string  `jsom:a json:"-"`
	gA258 
	GIface  `jsom:"ß"`
	gA244 
	É int  `jsom:",omitempty" json:"-"`
	Aa string  `json:"A,omitempty"`
	C *string  `json:"-"`
	A **int  `json:"-"`
	GA103 `json:"-"`
}

type GA268 struct {
	Id uint64  `jsom:",omitempty" json:"a"`
	*GA268 `json:"decoy"`
	*gA105 
	É bool  `json:"A,omitempty"`
	Name string  `jsom:"b"`
	Y json.Number  `jsom:"-"`
}

type GA269 struct {
	*GA269 `json:"A,omitempty"`
}

type gA270 struct {
	*GA44 `json:"decoy"`
	*GA49 
	ID string  `json:"a"`
	GHook  `json:"a"`
}

type GA271 struct {
	*gA111 `json:"-"`
	AA **int  `jsom:"0" json:"decoy"`
	GA203 `jsom:",omitempty"`
	*GA10 `json:"decoy"`
	GA166 `json:"a"`
	a uint64  `jsom:"id,string" json:"a"`
	Id [0]int  `json:"A,omitempty"`
	B map[string]int  `json:"-"`
}

type gA272 struct {
	gmap  `json:"a"`
}

type GA273 struct {
	GA268 
	D *bool  
	Y int64  `jsom:"0" json:"-"`
}

type GA274 struct {
	gA18 `json:"-"`
	Id JInt  `json:"a"`
}

type gA275 struct {
	*gA54 
	D float64  `jsom:"A,omitempty,string"`
	*gA26 `json:"-"`
	*gA68 `json:"-"`
	GA40 `jsom:"b"`
}

type GA276 struct {
	S *float64  `jsom:"B"`
	*GA269 `json:"A,omitempty"`
	Y uint8  `jsom:"0" json:",string"`
	X int64  `json:"decoy"`
	C float32  `json:"-"`
	B map[string]*NInt  `jsom:"a"`
	AB *float64  `json:"decoy"`
	D []string  `jsom:"A"`
	Name int  `json:"A,omitempty"`
	AA int64  `json:"a"`
	K int  `jsom:"aA" json:",string"`
	Id int  `json:"-"`
}

type GA277 struct {
	gface  `json:"decoy"`
	*GA246 
}

type GA278 struct {
	*gA58 `json:"-"`
	a float32  `json:"A,omitempty"`
	X float32  `jsom:",omitempty" json:"a"`
	Name uint64  `jsom: "a"`
	GA40 `json:"decoy"`
	gA39 `json:"decoy"`
}

type GA279 struct {
	id string  `jsom:"name,string" json:"decoy"`
	k int64  `json:"a"`
	Aa int64  `json:",string"`
	K int  `jsom:"a-b" json:"a"`
	*GA245 
	GA278 `json:"A,omitempty"`
}

type gA280 struct {
	S *bool  
	*gA285 `json:"-"`
	*gA257 
}

type gA281 struct {
	*GA227 `jsom:",omitempty"`
	ID bool  `jsom:",omitempty,string" json:"A,omitempty"`
	É [0]int  `jsom:"-," json:"decoy"`
	*gA5 
	gA261 `jsom:"é"`
	GStrs  `json:"a"`
}

type GA282 struct {
	gA58 `jsom:"-"`
	*GA213 
	B JInt  
}

type GA283 struct {
	GA242 `json:"-"`
	gA199 `json:"a"`
	*GNum  `json:"-"`
}

type gA284 struct {
	*GA231 `json:"A,omitempty"`
	*GA234 
	*gA201 `json:"-"`
	*gA118 `json:"-"`
}

type gA285 struct {
	AB *string  `jsom:"-," json:"-"`
	S *int  `json:"decoy"`
	ID int  `jsom:"0,omitempty" json:"decoy"`
	AA []string  `jsom:"-" json:"a"`
	id uint8  `jsom:"ſ,omitempty" json:"a"`
	Y uint8  
	*GA69 `json:"a"`
	*gA6 
	Ks *int  
}

type GA286 struct {
	C string  `jsom:",omitempty" json:"decoy"`
	gA54 
	É NStr  `jsom:",string" json:",string"`
	Y float32  
	Aa int8  `json:"decoy"`
	*GA288 `json:"A,omitempty"`
	ID float64  `json:",string"`
	K int8  `json:"-"`
	GA36 `json:"a"`
	*GA42 `json:"a"`
	Name float32  `json:"-"`
	X float64  `jsom:"c" json:"decoy"`
}

type GA287 struct {
	B int8  `jsom:"D"`
	GA282 `jsom:"-" json:"a"`
	ID float32  `jsom:"B" json:"a"`
	*GA289 `json:"-"`
	c int64  `json:",string"`
	AB map[string]*NInt  `jsom:"K" json:"-"`
	X struct{}  `jsom:"x y,omitempty" json:"-"`
	GA234 `json:"a"`
	K []byte  `jsom:",omitempty" json:"decoy"`
	gA130 `json:"-"`
}

type GA288 struct {
	*GA288 `json:"-"`
	GA25 `jsom:"name"`
	Id bool  
	*GA208 `json:"decoy"`
	gA270 `json:"decoy"`
	Y uint8  `jsom:"A,string" json:",string"`
	X []string  `json:"-"`
}

type GA289 struct {
	a int  `json:"decoy"`
	GA246 `json:"A,omitempty"`
	x NInt  `jsom:"é,string" json:",string"`
	AB [2]int  `jsom:"ks" json:"A,omitempty"`
	id string  `jsom:"-," json:"-"`
	b NStr  `jsom:"a.b,omitempty,string" json:",string"`
	*gA257 `json:"-"`
}

type gA290 struct {
	*gA46 
	GA50 `json:"A,omitempty"`
	B float64  
	ID string  
}

type GA291 struct {
	D *float64  `jsom:"ſ,omitempty" json:"decoy"`
	É uint64  
	S []int  `jsom:"name" json:"-"`
	GA287 `json:"A,omitempty"`
	X bool  `json:"decoy"`
	*GA15 `json:"-"`
}

type GA292 struct {
	gA270 `json:"decoy"`
	É int  `jsom:"ſ,omitempty" json:"a"`
	k float64  `json:",string"`
}

type GA293 struct {
	*GA231 
	aa NInt  `jsom:"-" json:"A,omitempty"`
	c int64  `json:",string"`
	*gA239 
	GA278 `jsom:"ks"`
}

type gA294 struct {
	GA203 `json:"-"`
	*gA253 `json:"-"`
	GA166 `json:"-"`
	AB bool  `jsom:"name,omitempty"`
}

type gA295 struct {
	K int  `jsom:"ks,omitempty,string" json:"-"`
	Name map[string]int  
	a uint64  `jsom:"0" json:",string"`
	B uint64  `json:"decoy"`
	*GA278 
	*gA272 `json:"-"`
	aa uint8  `jsom:"ſ" json:"a"`
	gA290 `jsom:"aA"`
}

type GA296 struct {
	*GA10 `jsom:",omitempty" json:"A,omitempty"`
	ID interface{}  `jsom:"\x01"`
}

type GA297 struct {
	GA269 `json:"decoy"`
	id int8  `json:"-"`
	S string  `jsom:"a-b" json:"A,omitempty"`
}

type gA298 struct {
	GStrs  
	Name int  `jsom:"id" json:"decoy"`
}

type GA299 struct {
	gface  `json:"decoy"`
	a int64  `jsom:"é,string" json:",string"`
	GA63 
	X NInt  `jsom:"id" json:"a"`
	C string  `jsom:",string,string"`
	GA49 `json:"A,omitempty"`
}

type gA300 struct {
	GA43 
	Id bool  `jsom:"x y,omitempty" json:"a"`
	*gA54 `json:"-"`
	gA46 `json:"a"`
	GA32 
}

type gA301 struct {
	Name string  `jsom:"b,omitempty" json:"-"`
	*gA229 `json:"-"`
	Id int  `json:"decoy"`
}

type GA302 struct {
	Y string  `jsom:"a-b,string" json:"A,omitempty"`
	Id string  `jsom:"é,string" json:",string"`
	GA32 `jsom:"a\\b" json:"a"`
	K interface{}  `jsom:"x y,omitempty" json:"-"`
	GHook  `json:"a"`
	D uint64  `json:"-"`
	a int8  `jsom:"ſ" json:"-"`
	B float32  `jsom:",omitempty" json:"A,omitempty"`
	gA62 `json:"-"`
	X int  `json:"-"`
	AA *bool  `jsom:"-," json:"A,omitempty"`
}

type GA303 struct {
	a NStr  `json:"a"`
	Name int8  
	D struct{}  
	ID map[string]*NInt  `json:"decoy"`
	B string  `json:"-"`
	K uint64  `jsom:"ſ" json:"decoy"`
	C float32  `json:"-"`
	GA13 `json:"decoy"`
	S *TStruct  `jsom:"B" json:"decoy"`
}

type gA304 struct {
	GA251 `json:"A,omitempty"`
	GA69 `jsom:"a.b,omitempty" json:"a"`
	gA275 
	*GA228 `json:"A,omitempty"`
	Aa NInt  `jsom:",omitempty" json:"-"`
}

type GA305 struct {
	X int64  `jsom:",omitempty" json:"-"`
	A NInt  `jsom:"a-b,string" json:"A,omitempty"`
	ID uint8  `json:"a"`
	*GA251 
	GA286 
	B int  `jsom:"name" json:"A,omitempty"`
	x float32  
	Ks int64  `json:"-"`
}

type GA306 struct {
	Id float32  `jsom:"a" jsom:"b" json:",string"`
	gA210 `jsom:"x y" json:"a"`
}

type GA307 struct {
	GA80 
	GA213 `json:"A,omitempty"`
	*GA307 `json:"A,omitempty"`
	x uint64  `json:"decoy"`
	ID **int  
}

type GA308 struct {
	AA float32  `jsom:"-," json:"decoy"`
	*GA286 `json:"A,omitempty"`
	Ks NStr  `json:",string"`
	D uint64  `jsom:"id" json:"a"`
	*gnum  `json:"A,omitempty"`
	A float32  `json:"a"`
}

type GA309 struct {
	GA56 `json:"A,omitempty"`
	A int  `jsom:"K" json:"-"`
	GA47 `json:"decoy"`
}

type GA310 struct {
	*gA60 
	GA24 `json:"-"`
}

type gA311 struct {
	ID *TStruct  `json:"-"`
	Aa NStr  `jsom:"K,omitempty"`
	*GA57 `json:"a"`
}

type GA312 struct {
	GA224 `json:"-"`
	gA311 
	*GA312 
	Y NInt  `json:"-"`
}

type gA313 struct {
	gA33 `json:"-"`
	Id NInt  `json:",string"`
	gA258 `json:"decoy"`
	gA290 `jsom:"a\\b" json:"-"`
}

type gA314 struct {
	É [2]int  
	GA296 
	*gA300 
}

type GA315 struct {
	Y uint64  `jsom:"<t>,string" json:"A,omitempty"`
	*GA38 `jsom:"id"`
	ID JInt  `json:"A,omitempty"`
}

type gA316 struct {
	*gA285 
	AA float64  
	Name bool  `json:"a"`
	*gA281 
	GA286 `jsom:",omitempty" json:"a"`
	*GA194 `json:"a"`
}

type gA317 struct {
	K *float64  `json:"a"`
	Name map[string]int  `jsom:"ks,omitempty"`
	AB interface{}  `jsom:"a"`
	*gA321 `json:"-"`
	S uint8  `jsom:"ks" json:",string"`
	X int  
	A struct{}  `jsom:"K" json:"a"`
	AA int  `jsom:",omitempty" json:"a"`
	C NStr  `json:"a"`
	Y NInt  `jsom:"-" json:"-"`
	Ks float64  `jsom:",omitempty" json:"a"`
	Aa int  
	GA65 `json:"A,omitempty"`
	D *string  `jsom:"0,omitempty" json:"A,omitempty"`
}

type GA318 struct {
	*GA318 `jsom:"a\\b" json:"a"`
	GFace  `json:"a"`
	X bool  `jsom:",omitempty" json:"a"`
	*GA322 `json:"A,omitempty"`
}

type GA319 struct {
	*gA59 
	Ks map[string]int  `jsom:"a-b,omitempty" json:"decoy"`
	É *int  `jsom:"-" json:"A,omitempty"`
	*gA73 
	D int8  `json:"-"`
	*gA270 
	S string  `jsom:"B" json:"-"`
}

type GA320 struct {
	*GA322 `json:"decoy"`
}

type gA321 struct {
	*GA318 
	D uint64  `jsom:"<t>,string" json:"decoy"`
	C TStr  `json:"-"`
}

type GA322 struct {
	AA uint8  `json:"-"`
	*GA322 `jsom:",omitempty" json:"a"`
	A [2]int  `jsom:"B" json:"-"`
	gA58 
	ID JInt  `json:"A,omitempty"`
}

type GA323 struct {
	ID [0]int  `json:"A,omitempty"`
	K [2]int  `json:"decoy"`
	*GA315 `json:"-"`
	GA13 `json:"A,omitempty"`
}

type GA324 struct {
	GA40 `json:"A,omitempty"`
}

type gA325 struct {
	GA53 `json:"-"`
	gA5 `jsom:",omitempty" json:"-"`
	S string  `jsom:"ſ,omitempty"`
	AB uint64  `jsom:"k,string" json:"decoy"`
}

type GA326 struct {
	*gA317 
	GA271 `jsom:"a.b" json:"a"`
	gA300 `jsom:"ß" json:"decoy"`
}

type gA327 struct {
	*gA327 `json:"-"`
	ID uint8  `jsom:",omitempty" json:"a"`
	*gA105 `json:"-"`
	GA51 
}

type GA328 struct {
	A map[string]*NInt  `jsom:"<t>"`
	AA NStr  
	gA46 `json:"-"`
	D int  `jsom:"ß" json:"A,omitempty"`
	S json.Number  `jsom:"ß"`
	ID uint8  `json:"decoy"`
	K float32  `jsom:"D" json:"a"`
	É bool  `json:"a"`
	Id float64  `jsom:"a,omitempty" json:"-"`
	Ks NStr  `jsom:"0" json:"-"`
	Y uint64  `json:"decoy"`
}

type GA329 struct {
	*gA46 
	A string  `jsom:",omitempty,string"`
}

type GA330 struct {
	*GA328 `jsom:"a\\b"`
	*GA183 `json:"A,omitempty"`
	GA94 
	GA288 
}

type gA331 struct {
	*gA46 
	*gA331 `json:"-"`
	Aa json.Number  
}

type gA332 struct {
	A string  `jsom:"x y,string,string" json:"-"`
	*gA127 
	GFace  `json:"a"`
}

type GA333 struct {
	GA306 `jsom:"ks,omitempty"`
	a int  `jsom:"b" json:"-"`
	B uint8  `jsom:"x y" json:"decoy"`
}

type gA334 struct {
	A uint64  `json:"A,omitempty"`
	*gA61 
	X int  `jsom:"-" json:"A,omitempty"`
	C string  
	*GA69 `json:"A,omitempty"`
	GA16 `jsom:"x y"`
	k int8  `json:"a"`
}

type GA335 struct {
	AB uint64  `json:"decoy"`
	*gA272 `json:"-"`
	*GA269 
	X string  `jsom:"ſ,omitempty" json:"A,omitempty"`
}

type GA336 struct {
	GA322 `json:"decoy"`
	*GA65 `json:"a"`
}

type GA337 struct {
	AB []byte  `jsom:"K" json:"a"`
	Id uint8  
	gA23 `jsom:"é"`
}

type gA338 struct {
	GA99 `jsom:"a\\b" json:"a"`
	GA228 `json:"A,omitempty"`
	Name uint8  `jsom:"x y,string" json:",string"`
}

type GA339 struct {
	b NInt  `json:"decoy"`
	S int  `json:"-"`
	Y NInt  `jsom:"x y,omitempty" json:"a"`
	GA164 `json:"-"`
	Aa string  `jsom:"-," json:"a"`
}

type gA340 struct {
	*GA302 `jsom:"0"`
}

type GA341 struct {
	*gnum  `json:"a"`
	gA64 `json:"a"`
	gA2 `json:"a"`
	S int64  
	D TStr  `jsom:"id,omitempty"`
	C [0]int  
	B float32  `json:"-"`
	GA337 `json:"decoy"`
}

type gA342 struct {
	*GA183 `json:"a"`
	GIface  `json:"a"`
}

type gA343 struct {
	D int64  `jsom:"-" json:"A,omitempty"`
	C [2]int  `jsom:"K,omitempty" json:"a"`
	*GA220 
}

type gA344 struct {
	GA329 `json:"-"`
	GA337 `json:"-"`
	K string  `jsom:",omitempty" json:"-"`
	A int64  `jsom:"<t>,string" json:"A,omitempty"`
	S interface{}  `jsom:"é,omitempty" json:"A,omitempty"`
}

type gA345 struct {
	*gA350 
	*GA15 
}

type GA346 struct {
	*gA347 `json:"-"`
	Y int  `json:"decoy"`
	ID bool  `json:"decoy"`
	Aa float32  `jsom:"id,omitempty" json:",string"`
}

type gA347 struct {
	Name float32  `json:"-"`
	AA [0]int  `json:"A,omitempty"`
	*gA23 `json:"-"`
	C float64  `json:"a"`
	É int  `jsom:"ks" json:"-"`
}

type GA348 struct {
	É uint8  `jsom:"-" json:"a"`
	D float64  `jsom:",omitempty,string" json:"-"`
	*GA56 `json:"A,omitempty"`
	k uint8  `json:"A,omitempty"`
	gA18 
	GA19 `json:"decoy"`
	Id bool  `json:"A,omitempty"`
	gA54 `json:"-"`
	X int  `jsom:"ß,string"`
	AB int64  `jsom:",,omitempty" json:"decoy"`
}

type GA349 struct {
	Ks NInt  `jsom:"b" json:"a"`
	Aa map[string]int  `json:"decoy"`
	B *TStruct  `jsom:"-"`
	C NInt  `jsom:"k,omitempty,string" json:"decoy"`
	Id bool  `jsom:",omitempty" json:"-"`
	x NInt  
	*gA275 
}

type gA350 struct {
	*gA270 
	*gA334 `jsom:",omitempty"`
	gA311 `jsom:"D,omitempty" json:"-"`
	GNum  `json:"A,omitempty"`
}

type GA351 struct {
	É bool  `json:"a"`
	Aa int64  `json:",string"`
	x uint8  `jsom:"ſ"`
	*gA325 `json:"-"`
	AA int8  `jsom:"<t>,omitempty" json:",string"`
}

type GA352 struct {
	D float64  
	gA331 
	*GA352 `json:"a"`
	GA50 `json:"a"`
}

type gA353 struct {
	AB NInt  `jsom:"k,string"`
	GA278 
	Aa struct{}  `jsom:"a-b,omitempty" json:"-"`
	*GA274 `jsom:"a,omitempty"`
	*GA251 
}

type GA354 struct {
	GA348 `jsom:"-" json:"a"`
	GA251 `json:"-"`
	X int  `jsom:"b" json:",string"`
	GA322 
	*GA337 
	É float64  `json:"a"`
	b uint8  `json:"-"`
	Ks uint64  `jsom:"id" json:"a"`
	S []int  
	Y int  `jsom:"c,omitempty,string" json:",string"`
}

type GA355 struct {
	C string  `jsom:",omitempty" json:"A,omitempty"`
	*GA299 `json:"-"`
	S []int  `jsom:",omitempty" json:"decoy"`
	id NInt  `json:"-"`
	A int8  `jsom:"é,omitempty"`
}

type GA356 struct {
	S [0]int  `jsom:"c"`
	*GA356 `json:"A,omitempty"`
	B int8  `jsom:"b" json:"A,omitempty"`
}

type gA357 struct {
	A float32  `json:"decoy"`
	Aa *int  `jsom:"a" json:"-"`
	*gA358 `json:"-"`
	Ks TStr  `jsom:"<t>,omitempty" json:"a"`
	Name string  `json:"decoy"`
}

type gA358 struct {
	Ks int8  `jsom:"-" json:"-"`
	GA36 `jsom:"a\\b" json:"a"`
	S NInt  `jsom:"<t>,string"`
	id uint8  `jsom:"D,omitempty" json:",string"`
	Y uint8  `json:"A,omitempty"`
	*GA40 
}

type GA359 struct {
	Ks uint64  `jsom:"-," json:"decoy"`
	D *string  `jsom:"ß" json:"-"`
	Y uint64  `jsom:"0,omitempty" json:"decoy"`
	B bool  `jsom:",omitempty,string" json:"a"`
	c NStr  `jsom:"-,"`
	GA328 `json:"A,omitempty"`
	id string  `jsom:"name,string"`
}

type GA360 struct {
	*GA362 
	gface  `jsom:"ß"`
	GA356 `jsom:"a\\b"`
}

type GA361 struct {
	X float32  `jsom:"x y,omitempty"`
	GA36 `json:"a"`
	AA string  `jsom:"-," json:"a"`
	id string  `jsom:",omitempty" json:",string"`
	K string  `jsom:"K" json:"A,omitempty"`
}

type GA362 struct {
	c int8  `jsom:"k" json:"decoy"`
	AB string  `jsom:"-,"`
	GA322 `jsom:"-"`
	a NStr  `jsom:"name" json:"decoy"`
	Ks int8  `jsom:"K" json:"-"`
	ID uint64  `json:"a"`
	Name string  `jsom:"-" json:"-"`
}

type gA363 struct {
	*GA315 
	*GA322 `json:"decoy"`
	*GA365 `json:"a"`
	*gA363 `json:"-"`
	Y string  `json:"decoy"`
}

type gA364 struct {
	Id [0]int  `jsom:"name,omitempty" json:"A,omitempty"`
	*GA354 `json:"decoy"`
	Y int  `json:"A,omitempty"`
	B NStr  `jsom:"D" json:"-"`
	É string  `jsom:"name" json:"decoy"`
	Ks map[string]int  `json:"decoy"`
	AB uint64  `jsom:"ks,string" json:"-"`
}

type GA365 struct {
	Ks NInt  `jsom:"ks" json:",string"`
	*gA31 `json:"-"`
	GA49 
}

type GA366 struct {
	*GA309 `json:"a"`
	GA323 
	GA243 `jsom:"a\\b" json:"a"`
	aa int64  `jsom:"A,omitempty" json:"decoy"`
	gA350 `jsom:"-" json:"a"`
}

type GA367 struct {
	D json.Number  
	GA69 
	X int64  `json:",string"`
	Id string  
	É string  `jsom:"c,omitempty,string" json:"-"`
	K string  `jsom:"a,string" json:"-"`
	Y interface{}  `json:"-"`
	AB float64  `json:"-"`
	aa int  `jsom:"<t>" json:"-"`
	*GA66 `json:"-"`
	B float64  `json:"decoy"`
	AA NInt  `json:",string"`
	Name float32  `json:"-"`
	S int  `jsom:"ſ"`
}

type GA368 struct {
	AB int  `json:"a"`
	Name string  `json:",string"`
	GA269 `json:"decoy"`
	K string  `jsom:"ſ" json:"-"`
	S uint64  
	*GA324 
}

type gA369 struct {
	Name bool  `json:"A,omitempty"`
	gA64 
	GA203 
}

type GA370 struct {
	É int8  `json:"a"`
	AA JInt  `jsom:"a" json:"a"`
	A bool  `jsom:"é" json:"A,omitempty"`
	gmap  `jsom:"id" json:"decoy"`
	Y NStr  `jsom:"" json:"a"`
	*gA347 
	*GA262 `json:"-"`
	gA270 
	AB struct{}  `jsom:"B" json:"-"`
}

type GA371 struct {
	*GA36 `jsom:"aA"`
	*GA38 `jsom:"a.b"`
}

type gA372 struct {
	GA322 `json:"decoy"`
	X string  `jsom:",string" json:"A,omitempty"`
	*GA377 
	Name float32  `jsom:"name,omitempty"`
	AB float64  `json:"decoy"`
	ID json.Number  `jsom:",omitempty" json:"a"`
}

type GA373 struct {
	Name string  `json:"a"`
	*GA376 `jsom:",omitempty" json:"a"`
	GA322 `json:"A,omitempty"`
}

type GA374 struct {
	*GA374 `json:"A,omitempty"`
	Id []byte  `jsom:"a-b,omitempty" json:"A,omitempty"`
	É NInt  `jsom:"B" json:",string"`
	AA JInt  `jsom:"id" json:"A,omitempty"`
}

type gA375 struct {
	A []string  
	Y TStr  `jsom:"a.b,omitempty" json:"-"`
	*GA371 `json:"a"`
}

type GA376 struct {
	gA259 `json:"decoy"`
	GA320 `json:"a"`
	Name map[string]*NInt  `json:"decoy"`
	c uint8  `jsom:"k,string" json:"A,omitempty"`
}

type GA377 struct {
	c int  `json:"A,omitempty"`
	Name int  `jsom:"a-b,omitempty" json:"-"`
	Ks uint8  `jsom:",string,string" json:"decoy"`
	gA30 `json:"a"`
}

type GA378 struct {
	D TStr  `jsom:",omitempty"`
	GA202 `jsom:"é,omitempty" json:"a"`
}

type gA379 struct {
	gA61 `jsom:",omitempty" json:"-"`
	Name NInt  `jsom:"D,omitempty" json:"decoy"`
	GFace  `json:"-"`
	AA []byte  `jsom:",omitempty"`
}

type gA380 struct {
	A float32  `json:"-"`
	*GA361 `json:"-"`
	Y float64  `json:"A,omitempty"`
}

type GA381 struct {
	Aa int  `json:"-"`
	id int8  `jsom:"-,"`
	Name **int  `xml:"x" jsom:"b" json:"A,omitempty"`
	A **int  
	gA331 
	b string  `json:",string"`
	C uint64  `jsom:"-," json:"a"`
}

type GA382 struct {
	gA343 `json:"A,omitempty"`
	aa bool  
	gA375 `jsom:"D" json:"A,omitempty"`
	É float64  `json:"decoy"`
	S interface{}  
	*gA285 `json:"-"`
	GHook  `jsom:"-" json:"a"`
}

type GA383 struct {
	GHook  
	AB int  
}

type GA384 struct {
	Y json.Number  
	*gA62 
}

type gA385 struct {
	Aa []string  
	Id bool  `jsom:",omitempty" json:",string"`
	a int8  `jsom:"é,omitempty"`
	Y map[string]int  `json:"-"`
	k int  `json:"-"`
	*GA377 `json:"decoy"`
	ID NInt  `jsom:"0,string"`
	gA358 `json:"a"`
}

type GA386 struct {
	GA40 `json:"a"`
	*GA386 `json:"a"`
}

type GA387 struct {
	S uint8  `jsom:"k,omitempty" json:"decoy"`
	Aa TStr  `json:"decoy"`
	AA string  `json:",string"`
	*GA387 `json:"a"`
	GA22 `json:"A,omitempty"`
	A float32  `jsom:"A" json:"A,omitempty"`
	AB string  `jsom:"id,omitempty,string" json:"decoy"`
	É []string  `json:"-"`
}

type GA388 struct {
	*GA217 `json:"A,omitempty"`
	C bool  `json:"decoy"`
	x uint8  `jsom:"x y" json:"A,omitempty"`
	Id string  `jsom:"-" json:"a"`
}

type GA389 struct {
	K bool  `jsom:"K" json:",string"`
	*GA103 `json:"A,omitempty"`
}

type gA390 struct {
	gA369 
	aa uint64  `json:"A,omitempty"`
	Y float32  `json:"A,omitempty"`
}

type GA391 struct {
	A float32  `jsom:"K,omitempty"`
	GA368 `json:"A,omitempty"`
}

type GA392 struct {
	*gA395 
	Name interface{}  
	GA49 
}

type GA393 struct {
	b float32  `json:"decoy"`
	D JInt  `jsom:"ſ,omitempty"`
	gA26 `json:"A,omitempty"`
}

type GA394 struct {
	Ks NStr  `json:"-"`
	*gA11 `json:"-"`
	GA57 `json:"a"`
	gA60 
	*GA43 
}

type gA395 struct {
	Ks map[string]int  `json:"-"`
	gA158 `json:"-"`
	GFace  `json:"-"`
	gA353 `jsom:"K" json:"-"`
	c NStr  `jsom:"ſ,string" json:"decoy"`
	*gA395 `json:"-"`
}

type GA396 struct {
	É NStr  `jsom:"id" json:",string"`
	A [2]int  `jsom:"D" json:"A,omitempty"`
	K int  `jsom:"ks,omitempty" json:"decoy"`
	*GA399 `json:"a"`
	GA22 
}

type gA397 struct {
	K NInt  `json:"-"`
	gA115 `json:"decoy"`
	*GA368 `jsom:"b,omitempty" json:"-"`
	B []string  `jsom:"-," json:"decoy"`
}

type GA398 struct {
	B int  `jsom:",omitempty,string" json:"decoy"`
	AA uint8  `jsom:"a.b,string"`
	*gA29 `json:"-"`
	ID uint8  `json:"decoy"`
	D int8  `xml:"a" json:"A,omitempty"`
	*GA47 
}

type GA399 struct {
	gA34 `json:"decoy"`
	*GA3 `jsom:"b" json:"a"`
	GA56 `json:"-"`
	gA39 `jsom:"B"`
	Id struct{}  `jsom:"a,omitempty" json:"A,omitempty"`
}

type gA400 struct {
	*gA7 
	*gA17 
	GA37 `jsom:"a\\b"`
	AA uint64  `json:"a"`
	*GA402 
}

type GA401 struct {
	*GA406 
	GA255 `json:"-"`
	Id float32  `jsom:"x y" json:"-"`
}

type GA402 struct {
	S *int  `json:"-"`
	GA27 `json:"a"`
	Ks int64  `json:",string"`
}

type gA403 struct {
	ID *int  `jsom:"name" json:"a"`
	Id map[string]int  `jsom:"ß,omitempty"`
	S string  `jsom:",omitempty"`
	*gA59 `json:"-"`
	aa int64  `jsom:"D,omitempty" json:"a"`
	É float64  `json:"decoy"`
	b string  
	GA38 `json:"decoy"`
	C *TStruct  `json:"-"`
	GA43 
	Name int64  `jsom:",omitempty,string" json:"a"`
	Ks *TStruct  
	k int  
	Y map[string]int  `jsom:"id" json:"a"`
	GA67 `json:"decoy"`
}

type GA404 struct {
	S int  `xml:"a"`
	D uint8  `json:"A,omitempty"`
	Aa int  `jsom:"é,omitempty,string" json:"-"`
	GA361 `json:"A,omitempty"`
	*GA384 `json:"A,omitempty"`
	*GA406 
	x int64  `jsom:"A,omitempty" json:"a"`
}

type GA405 struct {
	X int  `json:"a"`
	É int  `jsom:"-," json:"decoy"`
	*GA35 `json:"a"`
	*GA37 `json:"decoy"`
	Name *string  `jsom:"id" json:"a"`
	Y uint8  `jsom:",omitempty" json:"decoy"`
}

type GA406 struct {
	gA403 `json:"A,omitempty"`
}

type gA407 struct {
	Y uint64  `json:"a"`
	AA NInt  `json:"a"`
	É string  `jsom:"-," json:",string"`
	*gA46 `json:"-"`
	K map[string]int  
	*gA412 `json:"-"`
}

type GA408 struct {
	*gnum  `json:"decoy"`
	X int  
	*GA302 `jsom:"a\\b" json:"decoy"`
	*GA408 `json:"-"`
}

type gA409 struct {
	Y uint64  `jsom:"A,string" json:",string"`
	*gA353 
	Name string  `json:"-"`
}

type GA410 struct {
	gA372 `json:"decoy"`
	GA387 `json:"decoy"`
	*GA370 
}

type gA411 struct {
	AB NStr  `jsom:"x y,string" json:"-"`
	b string  `json:",string"`
	*GA52 `jsom:"name,omitempty" json:"a"`
	K uint64  `jsom:",omitempty,string"`
}

type gA412 struct {
	GA28 `json:"a"`
}

type gA413 struct {
	D float64  `json:",string"`
	GA249 `json:"decoy"`
	É int  `jsom:",string" json:"a"`
}

type GA414 struct {
	Y string  `json:"-"`
	Name [0]int  `jsom:"aA,omitempty"`
	K int64  `jsom:",omitempty,string" json:"-"`
	Ks float64  `jsom:"<t>,omitempty" json:"a"`
	GA56 `jsom:"K" json:"decoy"`
	Aa NStr  `json:",string"`
}

type GA415 struct {
	GA396 
	*GA22 `jsom:"-"`
	*gA418 `json:"-"`
	D NStr  `json:"decoy"`
	A int  `jsom:"ſ" json:",string"`
}

type GA416 struct {
	gA357 
	*GA416 `json:"decoy"`
	GA69 `jsom:"-"`
	C int64  `json:"a"`
	Id float32  `json:",string"`
	GA371 
}

type GA417 struct {
	É *string  `jsom:"id,omitempty" json:"decoy"`
	Ks JInt  `json:"-"`
	Id float32  `json:"a"`
	GHook  `json:"a"`
	AB uint8  `jsom:"-," json:"A,omitempty"`
	*gA46 
}

type gA418 struct {
	C NStr  `jsom:"é,omitempty" json:"a"`
	Name map[string]*NInt  `json:"decoy"`
	Ks NStr  `json:"A,omitempty"`
	Id *string  `json:"-"`
	*GA367 `json:"a"`
	gA357 `json:"-"`
	ID int  `json:"-"`
}

type GA419 struct {
	Ks bool  `jsom:"D" json:"a"`
	gA68 `json:"a"`
	AB [2]int  `json:"A,omitempty"`
	GA43 `json:"a"`
	A uint8  `json:"A,omitempty"`
	gA11 
	GA47 `json:"a"`
}

type GA420 struct {
	B string  `json:"decoy"`
}

type gA421 struct {
	B NInt  `jsom:"-," json:"A,omitempty"`
	C int64  `jsom:"<t>,omitempty" json:",string"`
}

type GA422 struct {
	*gA421 
}

type gA423 struct {
	*gA421 
}

type GA424 struct {
	*GA420 
}

type GA425 struct {
	ID map[string]int  `json:"A,omitempty"`
	D []int  
}

type GA426 struct {
	*GA422 
	GA424 `json:"a"`
}

type gA427 struct {
	*gA421 `json:"-"`
	*GA420 `json:"A,omitempty"`
}

type gA428 struct {
	K int  `json:"A,omitempty"`
	Name string  `jsom:"ks" json:"a"`
}

type gA429 struct {
	Id *int  `jsom:"ſ" json:"-"`
}

type GA430 struct {
	*gA428 `json:"-"`
}

type GA431 struct {
	*GA426 
	gA428 `json:"-"`
}

type gA432 struct {
	GA425 `json:"a"`
}

type GA433 struct {
	GA431 
	*GA430 `json:"a"`
	Aa uint64  `jsom:"ks" json:"decoy"`
}

type GA434 struct {
	*GA426 
}

type GA435 struct {
	*gA423 
}

type GA436 struct {
	Name int  `json:"-"`
	Aa NStr  `json:"-"`
}

type GA437 struct {
	*GA431 `json:"-"`
	*GA434 
}

type GA438 struct {
	*GA436 `json:"a"`
}

type GA439 struct {
	*gA429 `json:"-"`
	Y int  `jsom:",string" json:",string"`
}

type GA440 struct {
	*GA438 `json:"a"`
	gA429 `json:"A,omitempty"`
	AA uint8  `jsom:",omitempty,string" json:"decoy"`
}

type gA441 struct {
	GA438 
}

type gA442 struct {
	É uint64  `json:"a"`
	A string  
}

type GA443 struct {
	GA433 
}

type GA444 struct {
	D float64  `json:"a"`
	S bool  `jsom:"id,omitempty" json:",string"`
}

type gA445 struct {
	A interface{}  `json:"A,omitempty"`
	ID NStr  
}

type GA446 struct {
	*gA427 
}

type GA447 struct {
	Id NInt  `json:",string"`
}

type GA448 struct {
	*gA428 `json:"-"`
}

type GA449 struct {
	*GA438 `json:"-"`
}

type GA450 struct {
	GA425 
	C int64  `jsom:"a.b,omitempty" json:"-"`
}

type GA451 struct {
	*gA423 
}

type GA452 struct {
	*GA426 `json:"a"`
}

type GA453 struct {
	*gA429 
	GA420 
}

type gA454 struct {
	AA []int  `json:"decoy"`
	A uint8  `jsom:"aA" json:"-"`
}

type GA455 struct {
	*GA449 
	AB string  `json:"-"`
}

type GA456 struct {
	Ks float64  `json:"decoy"`
}

type GA457 struct {
	*GA424 
}

type gA458 struct {
	AA NInt  `jsom:"id,omitempty" json:"-"`
}

type GA459 struct {
	GA431 
}

type GA460 struct {
	Y *int  
	Aa uint64  `json:"-"`
}

type GA461 struct {
	*GA455 `json:"-"`
}

type GA462 struct {
	*gA445 
}

type GA463 struct {
	gA427 
}

type gA464 struct {
	*GA431 
}

type GA465 struct {
	*GA426 `json:"A,omitempty"`
	GA447 `json:"decoy"`
}

type GA466 struct {
	*gA464 `json:"-"`
}

type gA467 struct {
	*GA451 
	*GA463 
	É uint64  `jsom:"A"`
}

type GA468 struct {
	A map[string]int  `jsom:",omitempty"`
	Ks int  `jsom:"A,omitempty" json:",string"`
}

type gA469 struct {
	*gA427 `json:"-"`
}

type GA470 struct {
	*GA436 `json:"-"`
	*GA440 `json:"-"`
}

type GA471 struct {
	*gA469 `json:"-"`
	gA428 `jsom:"a\\b"`
}

type GA472 struct {
	GA462 `json:"decoy"`
	Y NInt  `json:",string"`
}

type GA473 struct {
	Aa interface{}  
}

type GA474 struct {
	gA428 
}

type gA475 struct {
	*GA425 
}

type GA476 struct {
	K *string  `json:"decoy"`
}

type GA477 struct {
	*gA464 `json:"-"`
	gA454 
}

type GA478 struct {
	B *string  `jsom:"ß" json:"decoy"`
}

type GA479 struct {
	*GA474 `json:"a"`
	AB int8  `json:"decoy"`
}

type gA480 struct {
	É NInt  `jsom:"A" json:"A,omitempty"`
}

type gA481 struct {
	Aa NInt  `jsom:"c,omitempty" json:"a"`
	K bool  `jsom:"b" json:",string"`
}

type gA482 struct {
	GA424 `json:"a"`
	GA449 `jsom:"-" json:"A,omitempty"`
}

type GA483 struct {
	Id int  `jsom:",omitempty" json:"A,omitempty"`
}

type GA484 struct {
	GA478 
}

type gA485 struct {
	É int  `jsom:"é" json:"a"`
	X *string  `jsom:"aA"`
}

type GA486 struct {
	X string  `jsom:"K" json:"A,omitempty"`
}

type GA487 struct {
	S float32  `json:"decoy"`
}

type GA488 struct {
	*GA468 
}

type gA489 struct {
	GA436 `jsom:"b"`
}

type gA490 struct {
	K []int  `jsom:"<t>"`
	D interface{}  
}

type GA491 struct {
	gA454 
}

type GA492 struct {
	ID map[string]int  `json:"a"`
}

type GA493 struct {
	*gA445 `json:"-"`
}

type gA494 struct {
	B uint64  `jsom:"id" json:"a"`
	Id int  `jsom:"x y"`
}

type GA495 struct {
	*GA448 `json:"a"`
}

type gA496 struct {
	*GA453 `json:"decoy"`
}

type GA497 struct {
	Y uint8  
}

type GA498 struct {
	A int64  `jsom:"a.b" json:"a"`
}

type gA499 struct {
	*gA475 
}

type GA500 struct {
	X uint64  `json:"A,omitempty"`
}

type GA501 struct {
	*gA467 `json:"-"`
	*GA491 `json:"A,omitempty"`
	X int64  `json:"-"`
}

type gA502 struct {
	*gA494 `json:"-"`
}

type GA503 struct {
	*GA462 `json:"decoy"`
}

type gA504 struct {
	Aa string  `json:"A,omitempty"`
}

type GA505 struct {
	*gA504 `json:"-"`
	D uint64  `json:"decoy"`
}

type GA506 struct {
	gA504 `json:"A,omitempty"`
}

type gA507 struct {
	gA504 
	AA uint8  `jsom: "a"`
}

type GA508 struct {
	gA504 `json:"-"`
	ID bool  `jsom:"B" json:"-"`
}

type GA509 struct {
	*gA504 
	Ks float32  
}

type GA510 struct {
	*GA505 `json:"decoy"`
	GA509 `json:"decoy"`
	*gA507 
	GA508 `json:"A,omitempty"`
	*GA506 `json:"A,omitempty"`
	Name string  `jsom:"c,omitempty,string" json:"A,omitempty"`
}

type GA511 struct {
	*GA508 `json:"A,omitempty"`
	*GA506 
	GA505 `json:"A,omitempty"`
}

type GA512 struct {
	S int64  `json:"a"`
	AB NStr  `json:"A,omitempty"`
}

type GA513 struct {
	GA512 
}

type GA514 struct {
	GA512 
	S string  `jsom:"c,string" json:"A,omitempty"`
}

type gA515 struct {
	GA512 `json:"A,omitempty"`
}

type GA516 struct {
	GA512 
}

type GA517 struct {
	GA512 
}

type gA518 struct {
	GA517 `json:"-"`
	GA513 `json:"a"`
}

type GA519 struct {
	gA515 `json:"-"`
	GA517 `json:"-"`
	gA518 `json:"-"`
	*GA516 `json:"-"`
	GA513 `json:"A,omitempty"`
}

type GA520 struct {
	C string  `jsom:"id,omitempty"`
	D string  `jsom:",string" json:"A,omitempty"`
	B float32  `jsom:"-," json:"A,omitempty"`
}

type GA521 struct {
	GA520 
}

type gA522 struct {
	GA520 `json:"-"`
	C uint64  `jsom:"b,omitempty" json:"decoy"`
}

type gA523 struct {
	GA520 `json:"decoy"`
	Ks int  `json:"decoy"`
}

type GA524 struct {
	*GA520 
}

type GA525 struct {
	GA520 `json:"decoy"`
}

type gA526 struct {
	*gA523 `json:"-"`
	GA521 
	*GA524 
}

type gA527 struct {
	GA524 `json:"A,omitempty"`
	gA526 `json:"-"`
	GA525 
	*gA522 
	ID NInt  `jsom:",omitempty" json:"-"`
}

type GA528 struct {
	C int  `json:"A,omitempty"`
	AA NInt  `jsom:"name,omitempty" json:",string"`
	D int  `jsom:"aA,string,omitempty,string"`
}

type gA529 struct {
	GA528 `json:"-"`
}

type GA530 struct {
	*GA528 `json:"A,omitempty"`
	A float64  `jsom:"-,"`
}

type gA531 struct {
	GA528 `json:"decoy"`
}

type gA532 struct {
	GA528 `json:"a"`
}

type GA533 struct {
	*GA528 `json:"a"`
	K bool  `json:"-"`
}

type gA534 struct {
	gA532 `json:"a"`
	GA530 `json:"a"`
	GA533 `json:"-"`
	gA529 
}

type GA535 struct {
	gA529 `json:"decoy"`
	GA530 `json:"decoy"`
}

type GA536 struct {
	D bool  `jsom:"id,omitempty" json:"A,omitempty"`
}

type GA537 struct {
	GA536 `json:"A,omitempty"`
}

type GA538 struct {
	GA536 `json:"-"`
	Aa string  `json:"-"`
}

type GA539 struct {
	GA536 `json:"a"`
}

type GA540 struct {
	GA536 
}

type GA541 struct {
	GA536 
}

type GA542 struct {
	*GA540 `json:"A,omitempty"`
	GA539 `json:"decoy"`
	GA541 `json:"decoy"`
}

type GA543 struct {
	GA538 `json:"-"`
	GA537 
	*GA539 `json:"A,omitempty"`
	*GA540 `json:"a"`
	GA541 `json:"-"`
	K string  `json:"decoy"`
}

type GO0 struct {
	ID uint64  `json:"-"`
}

type GO1 struct {
	Name bool  `json:"A,string,string"`
	ID [2]int  `json:"-"`
	Id string  `json:"-"`
}

type gO2 struct {
	X []string  `json:"-"`
	AB bool  `json:"-"`
	ID NStr  `json:"0,omitempty,string"`
	Id int  `json:"-"`
	Ks int64  `json:"-"`
	id NStr  `json:"aA,string,omitempty,string"`
	K JInt  `xml:"x" json:"b"`
}

type GO3 struct {
	ID [0]int  `json:"a-b,omitempty"`
	AB NInt  `json:"-"`
}

type gO4 struct {
	Y int8  `json:"-"`
	x uint64  `json:",omitempty"`
	S string  `json:"-"`
}

type gO5 struct {
	b bool  `json:"ß"`
	X uint8  `json:"-"`
}

type gO6 struct {
	AB NStr  `json:"-"`
	B int64  `json:"a.b"`
}

type gO7 struct {
	ID float32  `json:"D,omitempty"`
	C bool  `json:"aA,string,omitempty"`
	AB NStr  `json:"-,"`
	B JInt  `json:"-"`
	x float32  `json:"name,omitempty"`
	Aa float64  `json:"-"`
}

type gO8 struct {
	Ks uint64  `json:"b,omitempty,string"`
	S TStr  `json:"-"`
	b NStr  `json:"-"`
	ID uint64  `json:"-"`
}

type GO9 struct {
	K NStr  `json:"-"`
}

type GO10 struct {
	S int  `json:",omitempty"`
	k int  `json:"-"`
}

type gO11 struct {
	b float32  `json:"-"`
	ID uint64  `json:",omitempty"`
	id float64  `json:"-"`
	c int64  `json:"x y,omitempty,string"`
}

type gO12 struct {
	Ks float32  `json:"-"`
	AB string  `json:"-"`
	Name int  `json:"k,omitempty"`
}

type GO13 struct {
	C string  `json:"-"`
	S NInt  `json:",omitempty,string"`
	Aa int  `json:"\"q\""`
	AA uint64  `json:"-"`
}

type GO14 struct {
	X map[string]int  `json:"b"`
	AB string  `json:"-"`
}

type GO15 struct {
	C float32  `json:"-"`
}

type GO16 struct {
	É NStr  `json:"-"`
	Aa string  `json:"-"`
	ID string  `json:"a,omitempty"`
}

type gO17 struct {
	Ks string  `json:"K"`
	C uint64  `json:"-"`
	AB []byte  `json:"-"`
	AA int64  `json:"c"`
	S uint8  `json:"-"`
	B map[string]*NInt  `json:",omitempty"`
}

type gO18 struct {
	C *bool  `json:"0"`
	Name map[string]int  `json:"id,omitempty"`
}

type GO19 struct {
	A string  `json:"a"`
}

type GO20 struct {
	S float32  `json:"-"`
	Id int8  `json:"-"`
}

type GO21 struct {
	D uint64  `json:"-"`
	X float32  `json:",omitempty"`
}

type GO22 struct {
	D int8  `json:"a-b,omitempty"`
	ID uint8  `json:"-"`
	c float32  `json:"-"`
	É []byte  `json:"a.b,omitempty"`
}

type gO23 struct {
	C map[string]*NInt  `json:"é"`
	ID uint64  `json:"-"`
	A float64  `json:",omitempty"`
	AA int8  `xml:"x" json:"b"`
}

type GO24 struct {
	AA int64  `json:"-"`
	X string  `json:"x y,omitempty,string"`
}

type GO25 struct {
	X float32  `json:"-"`
	Ks uint64  `json:"-"`
}

type gO26 struct {
	A JInt  `json:"-"`
	S [2]int  `json:"-"`
	Name map[string]int  `json:"a.b,omitempty"`
	X uint64  `json:"-"`
	b int64  `json:"k,omitempty"`
	id NInt  `json:"-"`
}

type GO27 struct {
	Name uint8  `json:",omitempty"`
	S float64  `json:"\"q\""`
	k int  `json:"0"`
	Aa *int  `json:"-"`
	B NStr  `json:"-"`
	X int  `json:"-"`
}

type GO28 struct {
	Aa int64  `json:"-"`
}

type gO29 struct {
	S float32  `json:"ſ"`
	B float64  `json:"a-b,omitempty"`
}

type gO30 struct {
	b int  `json:"-"`
	B *string  `json:"-"`
	c int  `json:"-"`
	id string  `json:"-"`
	Y int  `json:"-"`
	S float64  `json:"0"`
	AB float64  `json:"0"`
}

type gO31 struct {
	A []byte  `json:"0"`
	B bool  `json:"x y,omitempty"`
}

type GO32 struct {
	S int8  `json:"-"`
	B map[string]int  `json:"-"`
	Name NStr  `json:"aA,omitempty"`
	É int64  `json:"-"`
	C int  `json:"aA"`
	X string  `json:"k,omitempty"`
}

type gO33 struct {
	S *TStruct  `json:"-"`
	Ks []int  `json:"-"`
	É *string  `json:"-"`
}

type gO34 struct {
	A NInt  `json:"-"`
}

type GO35 struct {
	X NInt  `json:"-"`
	É []byte  `json:"-"`
	AA bool  `json:"-"`
	A []int  `json:",omitempty"`
	Ks uint64  `json:"-"`
	Id string  `json:"-"`
	b bool  `json:"-"`
}

type GO36 struct {
	X *TStruct  `json:"name,omitempty"`
	É int  `json:"-"`
}

type GO37 struct {
	c string  `json:"-,"`
	A []int  `json:"-"`
}

type GO38 struct {
	D *float64  `json:"-"`
	B uint64  `json:"-"`
}

type gO39 struct {
	Ks uint8  `json:"-"`
	ID NStr  `json:"a.b,omitempty"`
	AB json.Number  `json:"<t>"`
}

type GO40 struct {
	D struct{}  `json:"\x01"`
	É NInt  `json:",omitempty"`
	Ks int64  `json:"-"`
}

type gO41 struct {
	Aa int  `json:"a" json:"b"`
	AB json.Number  `json:"A,omitempty"`
}

type GO42 struct {
	AA float32  `json:"-"`
}

type GO43 struct {
	A uint64  `json:"-"`
	C int64  `json:"-"`
	Y **int  `json:"a,omitempty"`
	k string  `json:"c,omitempty"`
}

type GO44 struct {
	aa float64  `json:"k,string,omitempty"`
	D TStr  `json:"-"`
	C float32  `json:"-"`
	X NInt  `json:"-"`
	K string  `json:"a,omitempty"`
	A NStr  `json:"-"`
	Aa float32  `json:"x y,omitempty"`
	ID []string  `json:"é"`
}

type GO45 struct {
	Name int  `json:"-"`
	A uint64  `json:"-"`
	b NInt  `xml:"x" json:"b"`
	Ks int64  `json:"-"`
	Id string  `json:"-"`
	id float64  `json:"-"`
	B NStr  `json:"-"`
}

type gO46 struct {
	Aa int  `json:"-"`
	x string  `json:"x y,string"`
}

type GO47 struct {
	K int  `json:"-"`
}

type gO48 struct {
	S string  `json:"-"`
	A float32  `json:"-"`
	X map[string]int  `json:"-"`
}

type GO49 struct {
	aa uint64  `json:"-"`
}

type GO50 struct {
	Y float32  `json:"-"`
	AA interface{}  `json:"-"`
}

type GO51 struct {
	AB [0]int  `json:"a-b,omitempty"`
	B uint8  `json:"-"`
}

type GO52 struct {
	X int8  `json:"-"`
	Y uint64  `json:"a.b"`
	Ks **int  `json:"-"`
	AA uint64  `json:"<t>,omitempty,string"`
	Name int  `json:"-"`
	AB int  `json:"id"`
	C string  `json:"id"`
	Aa float64  `json:"-"`
	k float64  `json:"-"`
	D []string  `json:"k"`
	ID float32  `json:"-,"`
}

type GO53 struct {
	É bool  `json:"ß"`
	B int8  `json:"-"`
}

type gO54 struct {
	C float32  `json:",string"`
	ID [0]int  `json:"-"`
}

type gO55 struct {
	Id int8  `json:"name,omitempty"`
	S int  `json:"-"`
	D int  `json:"x y,omitempty"`
	Ks float32  `json:"-"`
}

type GO56 struct {
	AA float64  `json:"-"`
	D uint8  `json:"-"`
}

type GO57 struct {
	B int64  `json:"-"`
	S JInt  `json:"K,omitempty"`
}

type gO58 struct {
	S string  `json:"-"`
	X uint64  `json:",string"`
}

type gO59 struct {
	B int  `json:"aA,string"`
	É interface{}  `json:"A"`
	Name [2]int  `json:"ks,omitempty"`
	A int  `json:"ß,string"`
}

type gO60 struct {
	x string  `json:"-"`
	Id float64  `json:"-"`
	AA string  `json:"ſ,string,omitempty"`
	a float32  `json:"D"`
}

type gO61 struct {
	Ks *bool  `json:"ß"`
	S **int  `json:"-"`
}

type gO62 struct {
	Name string  `json:"-"`
}

type GO63 struct {
	S *float64  `json:"a,omitempty"`
	B [2]int  `json:"c,omitempty"`
	K int  `json:",omitempty"`
	X uint8  `json:"-"`
	AB *TStruct  `json:"K,omitempty"`
	Aa int64  `json:",string"`
}

type gO64 struct {
	É int  `json:",string"`
	S uint8  `json:"-"`
	AA string  `json:"-"`
	a string  `json:"-"`
}

type GO65 struct {
	a int  `json:"-"`
	A *float64  `json:"-"`
	S string  `json:"-"`
	Name int  `json:"-"`
	AA NInt  `json:",omitempty,string"`
	k float64  `json:"ks,omitempty,string"`
}

type GO66 struct {
	É string  `json:"-"`
	ID JInt  `json:"-"`
	Ks json.Number  `json:"A,omitempty"`
	X float64  `json:"ks,omitempty"`
	Aa string  `json:"-"`
	S struct{}  `json:"-"`
}

type GO67 struct {
	Id int8  `json:",string"`
	AB TStr  `json:"<t>"`
}

type gO68 struct {
	ID int  `json:"-"`
	c int64  `json:"B,omitempty"`
	É int8  `json:"a.b,string"`
	Aa string  `json:"name,omitempty,string"`
	AB int  `json:"-"`
	A string  `json:"-"`
}

type GO69 struct {
	Id string  `json:"-,"`
}

type gO70 struct {
	*gO41 
	gO46 `json:"D,omitempty"`
	X int  `json:"-"`
	S float64  `json:"-"`
	*GO72 
	AB uint8  `json:"name,string"`
}

type GO71 struct {
	gmap  `json:"ks"`
	X int  `json:"-"`
	B float64  `json:",string,omitempty"`
	Y map[string]int  `json:"-"`
	AB bool  `json:"x y,omitempty"`
	Name int8  `json:"id,omitempty"`
	AA int8  `json:"-"`
	b NStr  `json:"-"`
	S string  `json:"b,string"`
	D string  `json:"-"`
	Ks [0]int  `json:"-"`
	*GO72 
}

type GO72 struct {
	ID json.Number  `json:"A"`
	Y float64  `json:"a-b"`
	gO41 
	gO46 `json:"k"`
}

type gO73 struct {
	gO68 `json:"id"`
}

type gO74 struct {
	*GO28 `json:"x y"`
	X []string  `json:"-"`
	*gO74 
	AA uint64  `json:"-"`
	S string  `json:"-"`
	*GO79 
	*gO59 
}

type gO75 struct {
	Ks int  `json:"a-b"`
	GO56 
	aa string  `json:"a"`
	D uint64  `json:"0,omitempty"`
}

type GO76 struct {
	AB string  `json:"-"`
	ID int8  `json:"A,omitempty"`
	aa uint64  `json:"-"`
	*GO76 
	É uint64  `json:"-"`
	Aa int64  `json:"b,omitempty"`
}

type GO77 struct {
	*gO55 
}

type GO78 struct {
	Id int  `json:"-"`
	b int  `json:"a"`
	gO74 
	*GO3 
	gO55 `json:"ks,omitempty"`
	AA int64  `json:"ſ"`
	É *float64  `json:"k,omitempty"`
}

type GO79 struct {
	Aa int8  `json:"ſ"`
	GO47 
}

type GO80 struct {
	aa NInt  `json:"-"`
	*GO40 
	gface  
}

type GO81 struct {
	*gO55 
	S int  `json:"K"`
}

type GO82 struct {
	gO39 `json:"k"`
	gO34 
}

type GO83 struct {
	GO0 
	GO43 
	ID int8  `json:"k"`
	*GO63 
	*gO61 
}

type gO84 struct {
	aa NStr  `json:"-"`
	GO56 
	GO72 `json:"a"`
	D TStr  `json:"-"`
	É JInt  `json:"-"`
	ID int8  `json:"-"`
}

type GO85 struct {
	*GO42 `json:"ſ"`
}

type GO86 struct {
	*gO73 
	AB bool  `json:"a-b,string,omitempty"`
	*gO29 
	*GO89 
}

type gO87 struct {
	gO39 
	*GO57 
	Name int64  `json:"K"`
	gO54 
	*gO34 
}

type gO88 struct {
	K map[string]*NInt  `json:"-"`
	C NInt  `json:"a"`
	GO63 
	ID string  `json:"a"`
	É int64  `json:"a.b,string"`
	*gO88 
	B string  `json:"-"`
	A **int  `json:"-"`
	AA string  `json:"-"`
	D JInt  `json:"x y"`
}

type GO89 struct {
	K JInt  `json:",omitempty"`
	gO48 
	k int8  `json:"k"`
	GO86 
}

type GO90 struct {
	ID int  `json:"é,omitempty"`
	GO57 
}

type gO91 struct {
	GStrs  
	GO90 
	*gO62 
	x string  `json:"-"`
}

type GO92 struct {
	*GO93 
	É bool  `json:"-"`
	k int64  `json:"D,omitempty"`
	S uint8  `json:"<t>"`
	K bool  `json:"-"`
	ID string  `json:"-"`
	Ks int  `json:"-"`
	D uint8  `json:"-"`
	aa NInt  `json:"a,omitempty,string"`
	Name int  `json:"-"`
	Id uint8  `json:"-"`
	AA string  `json:"<t>,string"`
}

type GO93 struct {
	GO50 
	GO65 
	*gO41 
	*GO83 
	Y int  `json:"B"`
}

type GO94 struct {
	*GO50 
	B bool  `json:"-"`
	A *bool  `json:"-"`
	x float64  `json:",omitempty"`
	D uint8  `json:"-"`
	X NInt  `json:"aA"`
	Aa [0]int  `json:"ſ"`
	K string  `json:"aA,omitempty"`
}

type gO95 struct {
	a int  `json:"ß"`
	ID int  `json:"é"`
	gO46 
	Aa **int  `json:"-"`
}

type gO96 struct {
	GO45 
	Name []string  `json:"-"`
	*GO40 
	*GO63 
	É uint64  `json:"-,"`
}

type GO97 struct {
	*gO41 
	S int8  `json:"a,omitempty"`
	K int  `json:"-"`
	D *int  `json:"x y"`
}

type GO98 struct {
	X uint8  `json:"-"`
	aa string  `json:"name"`
	AA int64  `json:"é"`
	*GO80 
	S int  `json:"-"`
	Ks bool  `json:"-"`
	GO42 
}

type GO99 struct {
	gnum  `json:"x y,omitempty"`
	K NStr  `json:"-"`
	*GO66 
	S uint64  `json:"-"`
}

type GO100 struct {
	*GO44 
	C float64  `json:"aA,string"`
	S uint64  `json:"-"`
	AA bool  `json:"0"`
	*gO46 
	GHook  `json:"ſ"`
}

type GO101 struct {
	GO100 
	*gO105 
}

type GO102 struct {
	ID string  `json:"B"`
	GO24 
	*GO50 
	*gnum  
}

type GO103 struct {
	GO67 `json:"K"`
	S map[string]*NInt  `json:",omitempty"`
	a uint64  `json:"a\\b"`
}

type GO104 struct {
	GO100 
	GO37 
	gO46 
	*GO104 `json:"b"`
}

type gO105 struct {
	*GO66 
	GO80 
	Aa int  `json:"-"`
	*GO67 `json:"b"`
	*gO18 
}

type GO106 struct {
	GO86 
	K [2]int  `json:"-"`
}

type GO107 struct {
	*GO47 
	GO66 
	É int64  `json:"-"`
	*gO59 
	Name string  `json:"K,omitempty"`
}

type GO108 struct {
	*gO6 
	Name float64  `json:"-"`
	GO66 `json:"a,omitempty"`
	GO47 
	É uint8  `json:"a,string"`
}

type gO109 struct {
	B NInt  `json:"-"`
	AA struct{}  `json:"-"`
	X int8  `json:"-"`
	D uint64  `json:"b,string"`
	É int64  `json:"-"`
	Aa json.Number  `json:",omitempty"`
	C uint8  `json:"-"`
	Id float32  `json:"-"`
	ID []byte  `json:"k"`
	gO31 
	S [0]int  `json:"c"`
	*gO54 
}

type GO110 struct {
	Id []int  `json:"-"`
	GO38 
	Aa string  `json:"A,omitempty,string"`
}

type gO111 struct {
	*gO59 
	*gO111 
	*GO49 `json:"K"`
	*GO20 `json:"-"`
}

type gO112 struct {
	GO53 
	*gO54 
	C int8  `json:"-"`
	*GO80 
}

type gO113 struct {
	GO83 `json:"B,omitempty"`
	B interface{}  `json:"A,omitempty"`
	Name struct{}  `json:"B"`
	gO11 
}

type GO114 struct {
	K int64  `json:"a-b,string,omitempty"`
	GO72 `json:"c"`
	S string  `json:"-"`
	*GO102 
	ID bool  `json:"A,string"`
	*GO114 
}

type gO115 struct {
	gO59 
	Name uint8  `json:"-"`
	c int64  `json:"é"`
}

type gO116 struct {
	GO45 
	AB *bool  `json:"-"`
	GO22 
	Aa uint64  `json:"-"`
	*GO102 
	Id uint8  `json:"-"`
	GO82 
}

type GO117 struct {
	K uint8  `json:"0,omitempty,string"`
	É NInt  `json:"-"`
	AA NInt  `json:"-,"`
	B bool  `json:"é,string"`
	*GO65 `json:"b"`
	Y float64  `json:"é,string,omitempty"`
	GO81 
}

type gO118 struct {
	É int8  `json:"a,omitempty"`
	GO65 `json:"b"`
	Id uint64  `json:",omitempty"`
	gO12 
	Y []int  `json:"-"`
	C int8  `json:",omitempty"`
	gO41 `json:",omitempty"`
}

type GO119 struct {
	GO10 
	É NInt  `json:"D"`
	GO47 
	GO56 
	*gO39 
	Y map[string]int  `json:"c"`
}

type gO120 struct {
	AA uint8  `json:"-"`
	*gO120 
	A *string  `json:"-"`
	AB string  `json:"-"`
	*gO111 
	X uint64  `json:"-"`
	c string  `json:"x y,omitempty,string"`
	Ks int8  `json:"-"`
	k string  `json:"aA,omitempty,string"`
	Aa []byte  `json:"-"`
	D []byte  `json:",omitempty"`
	GO103 
	*gO60 
}

type GO121 struct {
	S string  `json:"A"`
	K [2]int  `json:"-"`
	GO100 
	k string  `json:"A"`
	Ks *bool  `json:"A"`
	b string  `json:"-"`
	Id int  `json:"-"`
	Name *float64  `json:"a.b,omitempty"`
	*GO80 
	C **int  `json:"-"`
}

type GO122 struct {
	*GO83 
	GO66 
	k int64  `json:"-"`
}

type GO123 struct {
	Aa NInt  `json:"-"`
	GO71 
	Ks NInt  `json:"-"`
	GO19 
	C NInt  `json:"-"`
	AB TStr  `json:"-,"`
}

type GO124 struct {
	GO98 
	GO81 
	*GO124 
	gO54 
}

type GO125 struct {
	Id string  `json:"é,omitempty"`
	S int8  `json:"b,omitempty"`
	D []string  `json:",omitempty"`
	Aa map[string]*NInt  `json:",omitempty"`
	*gO48 
	x float64  `json:"-"`
	É float64  `json:"-"`
}

type GO126 struct {
	GO83 
	B int  `json:"-"`
	GO52 `json:",omitempty"`
	*GO77 
	K float32  `json:"id,string"`
	gO59 
}

type gO127 struct {
	gO61 
	Ks map[string]*NInt  `json:"-,"`
	D int64  `json:",string"`
}

type GO128 struct {
	Y int  `json:"<t>,omitempty"`
	Name []byte  `json:"ks,omitempty"`
	*GO128 
}

type gO129 struct {
	b int64  `json:"x y,omitempty,string"`
	ID int  `json:"a,omitempty"`
	*GO16 
	Aa uint64  `json:"-"`
}

type gO130 struct {
	É NInt  `json:"-"`
	gO54 
	Y int  `json:"-"`
}

type GO131 struct {
	gO64 
	a int8  `json:",omitempty"`
	Aa int8  `json:",omitempty"`
	K int  `json:"-"`
	GO102 `json:"a"`
	*GO66 
	X int64  `json:"0"`
	A uint64  `json:"aA,string"`
	Y bool  `json:",omitempty,string"`
}

type gO132 struct {
	GO14 
	GO3 
}

type GO133 struct {
	*gO111 
	S *TStruct  `json:"-"`
	GNum  `json:",omitempty"`
	AA int  `json:"-"`
	GO79 
	C string  `json:"-"`
}

type gO134 struct {
	C string  `json:"-"`
	Id []int  `json:"-"`
	K NInt  `json:"-"`
	gO109 `json:"-"`
}

type GO135 struct {
	S [0]int  `json:"name"`
	Ks float32  `json:"-"`
	B float32  `json:"-"`
	Aa string  `json:"x y,string"`
	AB uint64  `json:"K,omitempty,string"`
	D uint8  `json:"-"`
	*GO128 
}

type GO136 struct {
	gO29 
	Y **int  `json:"-"`
	S *int  `json:",omitempty"`
	Ks uint8  `json:"ſ,omitempty"`
	GO43 
	gO30 
}

type gO137 struct {
	*GO138 
	Y NInt  `json:"D"`
	k int8  `json:"-"`
	gO59 `json:"0,omitempty"`
	*GO67 `json:",omitempty"`
	AA int8  `json:"-"`
}

type GO138 struct {
	C int  `json:"-"`
	GO104 
	gO95 
}

type GO139 struct {
	C int  `json:"-"`
	AB int  `json:"-"`
	a string  `json:",,omitempty"`
	GO69 
	id NInt  `json:",omitempty,string"`
	ID *string  `json:"-"`
}

type gO140 struct {
	*GO97 
	gO118 `json:"a.b"`
	gO111 
	*gO140 
}

type GO141 struct {
	C int  `json:"-"`
	Id uint8  `json:",omitempty"`
	AB [0]int  `json:"-"`
	GHook  
	Y float64  `json:"-"`
	x int8  `json:"a,omitempty"`
	*GO43 
}

type GO142 struct {
	gO137 `json:"é"`
	B int64  `json:"ß,omitempty"`
	S struct{}  `json:"-"`
	GO125 
	*gO143 
}

type gO143 struct {
	Ks uint64  `json:"-"`
	X NInt  `json:"aA"`
	*gO73 
	S int  `json:"ks,omitempty,string"`
}

type GO144 struct {
	Id string  `json:",string"`
	*gO61 
	C float32  `json:",omitempty"`
	k NInt  `json:"-"`
	*gO62 
	Name string  `json:"id"`
}

type GO145 struct {
	X NInt  `json:"aA"`
	Name NStr  `json:"-"`
	ID float64  `json:"b,string"`
	B int64  `json:"-,"`
	*GO139 
	GO16 
	Y *bool  `json:"name"`
	GO99 `json:"aA,omitempty"`
}

type GO146 struct {
	X bool  `json:"-"`
	*GO146 
	S []byte  `json:"-"`
	A float64  `json:"D,omitempty,string"`
	Y uint8  `json:",omitempty"`
	GO69 
	gO11 `json:"a\\b"`
	É int8  `json:",omitempty"`
}

type GO147 struct {
	Id **int  `json:",omitempty"`
	B bool  `json:"-,"`
	AB int  `json:"é,omitempty"`
	É float32  `json:"id"`
	*GO144 
	Ks *int  `json:"-,"`
	ID int  `json:"-"`
	*gO127 
	AA int64  `json:"-"`
	C string  `json:"-"`
}

type gO148 struct {
	gO59 
	c int  `json:"b,omitempty,string"`
	ID map[string]int  `json:"id"`
	D uint8  `json:"-"`
	B string  `json:"a.b,string"`
	k bool  `json:"é,string"`
	gnum  
	AA *int  `json:"c"`
	C int8  `json:"-"`
	Name int  `json:"-"`
	A JInt  `json:"-"`
	Ks []string  `json:"-"`
}

type GO149 struct {
	Name *float64  `json:"-,"`
	gO109 
	gO62 
	gO41 `json:"ſ,omitempty"`
}

type GO150 struct {
	K float64  `json:"-"`
	GO80 
	GO141 
	GO81 
	B *int  `json:"-"`
}

type gO151 struct {
	AB uint8  `json:"-"`
	*GO119 
	C NInt  `json:"a-b,string"`
	Y NInt  `json:"k"`
}

type gO152 struct {
	GO66 
	GO69 
	D bool  `json:"-"`
	x float64  `json:"-"`
}

type GO153 struct {
	*gO113 
	*GO153 
	Name [2]int  `json:"-"`
	S int  `json:"D,omitempty"`
	C *float64  `json:"-"`
	AA bool  `json:"-"`
	gO152 
	ID map[string]*NInt  `json:"-"`
	*GO106 `json:"-"`
	K string  `json:",omitempty,string"`
}

type GO154 struct {
	AB map[string]int  `json:"-"`
	k bool  `json:"-"`
	*gO143 
	*gO33 
	K **int  `json:"B,omitempty"`
	X int64  `json:"-"`
	B interface{}  `json:"name"`
	Id int  `json:"k"`
	*GO102 
	D int  `json:"ks,omitempty"`
	ID string  `json:"-"`
	Name string  `json:"id"`
}

type gO155 struct {
	Aa float32  `json:"k,omitempty"`
	K bool  `json:"-"`
	*gO68 
	a float64  `json:"-"`
}

type gO156 struct {
	D int8  `json:",omitempty"`
	AB uint64  `json:"ß,string"`
	*GO49 
	B float32  `json:"-"`
	gO58 
}

type GO157 struct {
	Id []string  `json:"a.b,omitempty"`
	gO155 `json:",omitempty"`
	gnum  
	gO48 
	ID NInt  `json:"-"`
	*GO125 
	a string  `json:",omitempty"`
}

type gO158 struct {
	*GO163 
}

type GO159 struct {
	x NStr  `json:"a"`
	gO54 
	*GO159 `json:"-"`
	*gO59 
	AA **int  `json:"-"`
	Aa float32  `json:"id"`
	K string  `json:"-"`
	B *string  `json:"<t>"`
}

type GO160 struct {
	B NInt  `json:"a"`
	AA *TStruct  `json:"-"`
	*gO156 
}

type GO161 struct {
	ID int  `json:"-"`
	*GO161 
	AB float64  `json:"-"`
	GO141 
	Aa float32  `json:"a,omitempty"`
	Name int64  `json:"K,string"`
	Y []string  `json:"A"`
	B int  `json:"-,"`
}

type gO162 struct {
	gO155 `json:",omitempty"`
	GHook  
	Id NInt  `json:"ſ"`
}

type GO163 struct {
	*GO163 `json:"a,omitempty"`
	AA [2]int  `json:"-"`
	*gO167 
	Aa NInt  `json:"-"`
	A struct{}  `json:"-"`
}

type GO164 struct {
	*gO158 
	Aa float64  `json:"-"`
	Ks int64  `json:"ß,string,omitempty"`
}

type GO165 struct {
	gO156 `json:"b,omitempty"`
}

type GO166 struct {
	K *TStruct  `json:"-"`
	*GO171 
	GO35 
	Aa *string  `json:"<t>,omitempty"`
}

type gO167 struct {
	S uint8  `json:"-"`
	gO151 
}

type gO168 struct {
	GO42 
	GO56 
	AB int  `json:",string"`
	x NStr  `json:"-"`
	AA NStr  `json:"-"`
}

type GO169 struct {
	Id int  `json:"D"`
	X uint8  `json:"a,omitempty,string"`
	id NStr  `json:"-"`
	gO130 `json:"a\\b"`
}

type gO170 struct {
	gnum  
	D string  `json:"-"`
	Aa **int  `json:"B"`
	Id int  `json:"-"`
	*gO170 
}

type GO171 struct {
	ID string  `json:"aA,omitempty"`
	gO140 
	GO102 
	x int  `json:"-"`
	gO130 
	gnum  
	D NInt  `json:"x y,omitempty,string"`
	A NStr  `json:",string"`
}

type gO172 struct {
	gO143 
	É int8  `json:",string"`
	Y string  `json:"-"`
	B TStr  `json:"-"`
	*GO125 
}

type GO173 struct {
	*gO59 
	AB int  `json:"-"`
	gO23 `json:"K,omitempty"`
	Name bool  `json:"-"`
	GO56 
}

type GO174 struct {
	*gO178 
	Id float64  `json:"-"`
}

type gO175 struct {
	GO133 
	gO140 `json:"A,omitempty"`
}

type GO176 struct {
	GO147 
}

type GO177 struct {
	C *bool  `json:"-,"`
	*GO43 
	ID float32  `json:"é"`
}

type gO178 struct {
	*GO119 `json:"a\\b"`
	C int64  `json:"-"`
	GO146 
}

type GO179 struct {
	gO34 
	S int  `json:"c"`
	*GO53 `json:",omitempty"`
	Aa NInt  `json:"id,string"`
	GNum  `json:"a\\b"`
	GO119 
}

type gO180 struct {
	*gO180 
	gnum  
}

type GO181 struct {
	GO141 
	*gO118 
	AB int  `json:"-"`
}

type gO182 struct {
	gface  
	B NInt  `json:",string"`
	Id float64  `json:"-"`
	C [2]int  `json:"-"`
	*GO43 
	S TStr  `json:"-"`
	*GO184 
}

type GO183 struct {
	gO162 
	gO148 
	*GO66 
	GO149 
}

type GO184 struct {
	*gO111 
}

type GO185 struct {
	D int8  `json:"-"`
	Id **int  `json:"-"`
	GO42 
	C int8  `json:"-"`
	B interface{}  `json:"D"`
}

type gO186 struct {
	*gO178 
	gO175 
	*gO189 
	*gO151 
}

type GO187 struct {
	Ks *string  `json:"D"`
	k int  `json:"-"`
	Name int  `json:"é,omitempty"`
	AB int64  `json:"-"`
	AA NInt  `json:"name,string,omitempty"`
	*GO45 `json:"a\\b"`
	*gO17 
	aa int  `json:"-"`
	A NStr  `json:",string"`
	Id int64  `json:"D,omitempty"`
	S *string  `json:",omitempty"`
	Aa int  `json:"b,omitempty"`
	X NInt  `json:"-"`
	C []string  `json:"-"`
}

type GO188 struct {
	GO183 
	x int8  `json:"-"`
	*GO146 `json:"a"`
	GFace  
	id uint8  `json:"b"`
	gface  
}

type gO189 struct {
	ID float32  `json:"a.b,string"`
	*gO111 
	GO97 
	gO2 
}

type GO190 struct {
	AA NInt  `json:"K"`
	GO149 
	Name *float64  `json:"k,omitempty"`
}

type GO191 struct {
	GO67 `json:"-"`
	GO53 
	GO45 
	GO66 `json:"-"`
}

type GO192 struct {
	gO88 
	Ks *bool  `json:",omitempty"`
	*GO83 
	gO30 
}

type gO193 struct {
	AA int64  `json:"id,omitempty"`
	*GO100 `json:"c"`
	X float64  `json:"a.b,omitempty,string"`
}

type GO194 struct {
	b float64  `json:"-"`
	*GO44 
	GO25 
	*GO43 
	GO0 
	Y *string  `json:"-"`
	X int  `json:"a" json:"b"`
	AA NInt  `json:"-"`
}

type gO195 struct {
	*gO152 
	GHook  `json:"-"`
	GO81 
}

type GO196 struct {
	K string  `json:"-"`
	ID *string  `json:"-"`
	*gO199 
	gO6 
	*GO43 
}

type GO197 struct {
	GO15 
	AA int64  `json:"-"`
}

type gO198 struct {
	GO177 `json:"-"`
	*GO203 
}

type gO199 struct {
	*GO49 
	k string  `json:",string"`
	*GO13 
	GO51 
	D string  `json:"-"`
}

type GO200 struct {
	*gO130 
	Name float64  `json:"-"`
	gO199 
	gO168 
	*GO125 
}

type gO201 struct {
	*gO206 
	*GO56 
	gmap  
}

type GO202 struct {
	GO67 `json:"A,omitempty"`
	Name string  `json:"-"`
	gO61 
}

type GO203 struct {
	*GNum  `json:"K"`
	S uint8  `json:"-"`
	c string  `json:"-"`
	gO46 
	B int64  `json:"x y"`
}

type GO204 struct {
	GO43 `json:",omitempty"`
	X map[string]*NInt  `json:"<t>"`
	Ks float32  `json:"-"`
	A *TStruct  `json:"-"`
	S int  `json:"b"`
	GO32 
	GO3 
	GO53 `json:"a\\b"`
}

type gO205 struct {
	GO202 
}

type gO206 struct {
	X JInt  `json:"-"`
	gO201 
	Aa bool  `json:"c,string"`
	GIface  
	D NStr  `json:"-"`
	S NInt  `json:"-"`
}

type GO207 struct {
	GO192 
	gO152 `json:"a\\b"`
	*GO212 
}

type GO208 struct {
	*gO23 
}

type GO209 struct {
	*GO20 `json:"x y"`
	AB string  `json:"-"`
	*gO59 
	*GO83 
}

type gO210 struct {
	GO49 
	*gO210 
}

type GO211 struct {
	GO100 
	gO127 
	Name map[string]int  `json:"D"`
	Id []int  `json:"A,omitempty"`
	Y *TStruct  `json:"-"`
	S uint8  `json:"-"`
	AB string  `json:"-"`
	*GO38 
	B bool  `json:"-,"`
	A string  `json:"-,"`
	aa float32  `json:"A,omitempty"`
}

type GO212 struct {
	K interface{}  `json:"-"`
	Id string  `json:"k,omitempty,string"`
	C string  `json:"b,omitempty"`
	GHook  
	GO159 
	X string  `json:",string"`
}

type GO213 struct {
	gO34 
	É bool  `json:"-"`
	gO55 
	*GO213 `json:"<t>"`
	AB float32  `json:"-"`
	GO14 
}

type gO214 struct {
	b uint64  `json:"a-b,omitempty"`
	GO192 
	gO178 
}

type GO215 struct {
	GO197 
	gO182 
	S map[string]*NInt  `json:"-"`
	Y []int  `json:"0,omitempty"`
	*GO191 
	Ks JInt  `json:"-"`
}

type GO216 struct {
	*GO71 
	*GO14 
	D int  `json:""`
	S string  `json:"-"`
	*GO173 
	C *float64  `json:"<t>,omitempty"`
}

type GO217 struct {
	*gO199 
	D int  `json:"-"`
	GO83 
	Y float32  `json:"c,string"`
	gO168 
	A uint64  `json:"A,omitempty"`
	S int64  `json:",omitempty,string"`
	Id int  `json:"é,string,omitempty,string"`
	K string  `json:"name,omitempty"`
}

type GO218 struct {
	AB float64  `json:"-"`
	AA bool  `json:"D,omitempty"`
	x float64  `json:"-"`
	GO173 
	GO35 
	gO111 
}

type gO219 struct {
	GO110 
	*GO203 
	gO127 
	B NStr  `json:"ks,string,omitempty"`
}

type GO220 struct {
	aa string  `json:"B"`
	Name float32  `json:"-"`
	C int8  `json:",omitempty"`
	Aa string  `json:"-"`
	GO45 
}

type gO221 struct {
	AB int64  `json:"ſ,omitempty"`
	GO194 
}

type GO222 struct {
	Y float64  `json:",omitempty,string"`
	GO141 
	A TStr  `json:"K"`
}

type GO223 struct {
	A float64  `json:"-"`
	B string  `json:"-"`
	GO44 `json:"-"`
	GO36 
}

type GO224 struct {
	GO125 
	Ks struct{}  `json:"-,"`
	*GO194 `json:"a-b"`
	*gO109 
	*GO177 
}

type gO225 struct {
	*GO0 
	*GO227 
	AB bool  `json:"-"`
}

type gO226 struct {
	GO204 
	GO161 
	Aa float32  `json:"-"`
	ID map[string]int  `json:"-"`
	K bool  `json:"ks,omitempty"`
	AA *bool  `json:"-"`
	*GNum  `json:"-"`
}

type GO227 struct {
	*GO32 
	GO50 `json:"B"`
	a string  `json:"b,omitempty,string"`
	*GO57 `json:"0"`
	Ks NStr  `json:"k,omitempty"`
}

type GO228 struct {
	gO31 `json:"ks"`
	B float32  `json:"id"`
	Id uint8  `json:",omitempty,string"`
}

type gO229 struct {
	D map[string]int  `json:"<t>,omitempty"`
	C int8  `json:"b"`
	AA map[string]int  `json:"-"`
	Id bool  `json:"-"`
	gnum  
	*gO6 
	Name int  `json:"-"`
	a float64  `json:"-,"`
}

type gO230 struct {
	A bool  `json:",omitempty"`
	AA int  `json:"-"`
	D float64  `json:",omitempty"`
	Aa [2]int  `json:"x y,omitempty"`
	*gO182 
	Id []string  `json:"-"`
}

type GO231 struct {
	GO67 
	Id string  `json:"A,omitempty"`
	b string  `json:"-"`
	gO182 `json:"ß"`
	*GO159 
	GO44 
}

type gO232 struct {
	*gO232 
	*GO220 `json:"<t>"`
	GO191 
	GO231 
	Ks *TStruct  `json:"-"`
}

type gO233 struct {
	GNum  
}

type GO234 struct {
	*gO73 
	Y string  `json:"é,string"`
	gO127 
	É uint8  `json:"-"`
}

type gO235 struct {
	X map[string]*NInt  `json:"-"`
	id int  `json:"-"`
	ID interface{}  `json:",omitempty"`
	A string  `json:"-"`
	Id float64  `json:"-"`
	Ks interface{}  `json:"-"`
	S *bool  `json:"-"`
	gO221 
	AB int64  `json:"c"`
	Aa string  `json:"<t>,omitempty,string"`
	Name [2]int  `json:"-"`
}

type GO236 struct {
	Ks []byte  `json:"ks"`
	B uint64  `json:"-"`
	Id uint64  `json:"b,omitempty"`
	GO173 `json:"é"`
	GStrs  
}

type GO237 struct {
	ID float32  `json:"-"`
	gO199 
	Name **int  `json:"-"`
	AA float64  `json:"-"`
	gO112 
	*gO225 
}

type GO238 struct {
	*GO238 
	Name JInt  `json:"-"`
	GFace  
	Ks float32  `json:"0,string"`
	Y int8  `json:"A,omitempty"`
}

type gO239 struct {
	GO49 
	B uint64  `json:"-"`
	GHook  
	A uint64  `json:"-"`
	Y NStr  `json:"k,omitempty"`
	X string  `json:"-"`
	gO46 
}

type GO240 struct {
	ID int  `json:"-"`
	GO187 
	*GO207 
	Id int64  `json:"K,omitempty,string"`
}

type GO241 struct {
	C **int  `json:"-"`
	GO141 `json:"ks,omitempty"`
	Aa string  `json:"-"`
	B int  `json:"B,omitempty"`
	*GO241 `json:"ks"`
	Y int8  `json:"-"`
	c int  `json:"-"`
	X int8  `json:"-,"`
}

type GO242 struct {
	*gO199 
	GO187 
	a int  `json:"-"`
	B *string  `json:"-"`
	Y *int  `json:"a.b"`
	É float32  `json:"-"`
}

type GO243 struct {
	gO130 
	*GO146 
	a int  `json:"-,"`
}

type gO244 struct {
	K int8  `json:"-"`
	*GO44 `json:"A"`
	AB uint64  `json:"k,string"`
	É NStr  `json:"-"`
	A int64  `json:"b"`
	B NStr  `json:"D"`
	GO202 `json:",omitempty"`
	GHook  
	X float32  `json:"-"`
}

type GO245 struct {
	GO94 `json:",omitempty"`
	S struct{}  `json:"b"`
	Name NStr  `json:"-"`
}

type GO246 struct {
	*gO168 
	Ks TStr  `json:"x y,omitempty"`
	A map[string]*NInt  `json:"-"`
	GHook  `json:"B"`
}

type GO247 struct {
	*gO46 
	*GO250 
	ID int8  `json:"id,string"`
}

type GO248 struct {
	AA int8  `json:"-"`
	ID float32  `json:""`
	AB float32  `json:"c"`
	K int64  `json:"-"`
	Aa NInt  `json:",omitempty,string"`
	*GO223 `json:"x y"`
}

type GO249 struct {
	Id bool  `json:"b"`
	GO53 
	A string  `json:"-"`
}

type GO250 struct {
	*gO115 
	*gO254 
	*GO203 `json:"aA,omitempty"`
	Id NStr  `json:"-"`
	Y NStr  `json:"-"`
}

type GO251 struct {
	Id float64  `json:",omitempty,string"`
	Ks *string  `json:"-"`
	gO48 
	AB float32  `json:",string,string"`
	É NStr  `json:"-,"`
	D []int  `json:"a"`
	B string  `json:"-"`
	X uint64  `json:"a-b"`
	C int64  `json:"-"`
	AA int8  `json:"-"`
	S []string  `json:"-"`
}

type GO252 struct {
	*gO244 
	gO235 
	*GO255 
	*GO224 
}

type gO253 struct {
	*GO49 
	A *float64  `json:",omitempty"`
}

type gO254 struct {
	*GO211 
	GO212 
	X int  `json:"-"`
}

type GO255 struct {
	K string  `json:"-"`
	GO202 
	GO119 
}

type gO256 struct {
	GO90 
}

type gO257 struct {
	*GO19 
	Y []int  `json:",omitempty"`
	*gO257 `json:"-"`
	*GO262 
}

type gO258 struct {
	gO68 `json:"0,omitempty"`
	GO40 
}

type gO259 struct {
	gO62 
	AB int  `json:"K,omitempty"`
	*gO259 
	*gO260 
	D string  `json:",string"`
}

type gO260 struct {
	D string  `json:"-"`
	gO225 
	Y uint64  `json:"c,omitempty"`
	gO233 
	B JInt  `json:"-"`
	K float32  `json:"-"`
}

type gO261 struct {
	Ks float64  `json:"-"`
	gO18 
	B bool  `json:"x y,omitempty"`
	AB NStr  `json:"-"`
	D float64  `json:"B,string"`
	GO52 
	c int8  `json:"-"`
	Id bool  `json:"ß"`
}

type GO262 struct {
	GO53 
	AB int8  `json:"-"`
}

type GO263 struct {
	aa uint8  `json:"ks,omitempty"`
	X []string  `json:"<t>,omitempty"`
	*GO263 
}

type GO264 struct {
	B int64  `json:"<t>"`
	gO257 
	GO179 
	AB *int  `json:"B,omitempty"`
}

type GO265 struct {
	gO87 
	*gO74 
	gO244 
}

type GO266 struct {
	*gO259 `json:"-"`
	*gO257 
	aa string  `json:"a-b,omitempty,string"`
	B int64  `json:"-"`
	GO1 
	*GO255 `json:"<t>"`
}

type GO267 struct {
	AA string  `json:"-"`
	gO258 
	GIface  `json:"ß"`
	gO244 
	É int  `json:",omitempty"`
	Aa string  `json:"-"`
	C *string  `json:"-"`
	A **int  `json:"-"`
	GO103 
}

type GO268 struct {
	Id uint64  `json:",omitempty"`
	*GO268 
	*gO105 
	É bool  `json:"-"`
	Name string  `json:"b"`
	Y json.Number  `json:"-"`
}

type GO269 struct {
	*GO269 
}

type gO270 struct {
	*GO44 
	*GO49 
	ID string  `json:"-"`
	GHook  
}

type GO271 struct {
	*gO111 
	AA **int  `json:"0"`
	GO203 `json:",omitempty"`
	*GO10 
	GO166 
	a uint64  `json:"id,string"`
	Id [0]int  `json:"-"`
	B map[string]int  `json:"-"`
}

type gO272 struct {
	gmap  
}

type GO273 struct {
	GO268 
	D *bool  `json:"-"`
	Y int64  `json:"0"`
}

type GO274 struct {
	gO18 
	Id JInt  `json:"-"`
}

type gO275 struct {
	*gO54 
	D float64  `json:"A,omitempty,string"`
	*gO26 
	*gO68 
	GO40 `json:"b"`
}

type GO276 struct {
	S *float64  `json:"B"`
	*GO269 
	Y uint8  `json:"0"`
	X int64  `json:"-"`
	C float32  `json:"-"`
	B map[string]*NInt  `json:"a"`
	AB *float64  `json:"-"`
	D []string  `json:"A"`
	Name int  `json:"-"`
	AA int64  `json:"-"`
	K int  `json:"aA"`
	Id int  `json:"-"`
}

type GO277 struct {
	gface  
	*GO246 
}

type GO278 struct {
	*gO58 
	a float32  `json:"-"`
	X float32  `json:",omitempty"`
	Name uint64  `json:"-"`
	GO40 
	gO39 
}

type GO279 struct {
	id string  `json:"name,string"`
	k int64  `json:"-"`
	Aa int64  `json:"-"`
	K int  `json:"a-b"`
	*GO245 
	GO278 
}

type gO280 struct {
	S *bool  `json:"-"`
	*gO285 
	*gO257 
}

type gO281 struct {
	*GO227 `json:",omitempty"`
	ID bool  `json:",omitempty,string"`
	É [0]int  `json:"-,"`
	*gO5 
	gO261 `json:"é"`
	GStrs  
}

type GO282 struct {
	gO58 `json:"-"`
	*GO213 
	B JInt  `json:"-"`
}

type GO283 struct {
	GO242 
	gO199 
	*GNum  
}

type gO284 struct {
	*GO231 
	*GO234 
	*gO201 
	*gO118 
}

type gO285 struct {
	AB *string  `json:"-,"`
	S *int  `json:"-"`
	ID int  `json:"0,omitempty"`
	AA []string  `json:"-"`
	id uint8  `json:"ſ,omitempty"`
	Y uint8  `json:"-"`
	*GO69 
	*gO6 
	Ks *int  `json:"-"`
}

type GO286 struct {
	C string  `json:",omitempty"`
	gO54 
	É NStr  `json:",string"`
	Y float32  `json:"-"`
	Aa int8  `json:"-"`
	*GO288 
	ID float64  `json:"-"`
	K int8  `json:"-"`
	GO36 
	*GO42 
	Name float32  `json:"-"`
	X float64  `json:"c"`
}

type GO287 struct {
	B int8  `json:"D"`
	GO282 `json:"-"`
	ID float32  `json:"B"`
	*GO289 
	c int64  `json:"-"`
	AB map[string]*NInt  `json:"K"`
	X struct{}  `json:"x y,omitempty"`
	GO234 
	K []byte  `json:",omitempty"`
	gO130 
}

type GO288 struct {
	*GO288 
	GO25 `json:"name"`
	Id bool  `json:"-"`
	*GO208 
	gO270 
	Y uint8  `json:"A,string"`
	X []string  `json:"-"`
}

type GO289 struct {
	a int  `json:"-"`
	GO246 
	x NInt  `json:"é,string"`
	AB [2]int  `json:"ks"`
	id string  `json:"-,"`
	b NStr  `json:"a.b,omitempty,string"`
	*gO257 
}

type gO290 struct {
	*gO46 
	GO50 
	B float64  `json:"-"`
	ID string  `json:"-"`
}

type GO291 struct {
	D *float64  `json:"ſ,omitempty"`
	É uint64  `json:"-"`
	S []int  `json:"name"`
	GO287 
	X bool  `json:"-"`
	*GO15 
}

type GO292 struct {
	gO270 
	É int  `json:"ſ,omitempty"`
	k float64  `json:"-"`
}

type GO293 struct {
	*GO231 
	aa NInt  `json:"-"`
	c int64  `json:"-"`
	*gO239 
	GO278 `json:"ks"`
}

type gO294 struct {
	GO203 
	*gO253 
	GO166 
	AB bool  `json:"name,omitempty"`
}

type gO295 struct {
	K int  `json:"ks,omitempty,string"`
	Name map[string]int  `json:"-"`
	a uint64  `json:"0"`
	B uint64  `json:"-"`
	*GO278 
	*gO272 
	aa uint8  `json:"ſ"`
	gO290 `json:"aA"`
}

type GO296 struct {
	*GO10 `json:",omitempty"`
	ID interface{}  `json:"\x01"`
}

type GO297 struct {
	GO269 
	id int8  `json:"-"`
	S string  `json:"a-b"`
}

type gO298 struct {
	GStrs  
	Name int  `json:"id"`
}

type GO299 struct {
	gface  
	a int64  `json:"é,string"`
	GO63 
	X NInt  `json:"id"`
	C string  `json:",string,string"`
	GO49 
}

type gO300 struct {
	GO43 
	Id bool  `json:"x y,omitempty"`
	*gO54 
	gO46 
	GO32 
}

type gO301 struct {
	Name string  `json:"b,omitempty"`
	*gO229 
	Id int  `json:"-"`
}

type GO302 struct {
	Y string  `json:"a-b,string"`
	Id string  `json:"é,string"`
	GO32 `json:"a\\b"`
	K interface{}  `json:"x y,omitempty"`
	GHook  
	D uint64  `json:"-"`
	a int8  `json:"ſ"`
	B float32  `json:",omitempty"`
	gO62 
	X int  `json:"-"`
	AA *bool  `json:"-,"`
}

type GO303 struct {
	a NStr  `json:"-"`
	Name int8  `json:"-"`
	D struct{}  `json:"-"`
	ID map[string]*NInt  `json:"-"`
	B string  `json:"-"`
	K uint64  `json:"ſ"`
	C float32  `json:"-"`
	GO13 
	S *TStruct  `json:"B"`
}

type gO304 struct {
	GO251 
	GO69 `json:"a.b,omitempty"`
	gO275 
	*GO228 
	Aa NInt  `json:",omitempty"`
}

type GO305 struct {
	X int64  `json:",omitempty"`
	A NInt  `json:"a-b,string"`
	ID uint8  `json:"-"`
	*GO251 
	GO286 
	B int  `json:"name"`
	x float32  `json:"-"`
	Ks int64  `json:"-"`
}

type GO306 struct {
	Id float32  `json:"a" json:"b"`
	gO210 `json:"x y"`
}

type GO307 struct {
	GO80 
	GO213 
	*GO307 
	x uint64  `json:"-"`
	ID **int  `json:"-"`
}

type GO308 struct {
	AA float32  `json:"-,"`
	*GO286 
	Ks NStr  `json:"-"`
	D uint64  `json:"id"`
	*gnum  
	A float32  `json:"-"`
}

type GO309 struct {
	GO56 
	A int  `json:"K"`
	GO47 
}

type GO310 struct {
	*gO60 
	GO24 
}

type gO311 struct {
	ID *TStruct  `json:"-"`
	Aa NStr  `json:"K,omitempty"`
	*GO57 
}

type GO312 struct {
	GO224 
	gO311 
	*GO312 
	Y NInt  `json:"-"`
}

type gO313 struct {
	gO33 
	Id NInt  `json:"-"`
	gO258 
	gO290 `json:"a\\b"`
}

type gO314 struct {
	É [2]int  `json:"-"`
	GO296 
	*gO300 
}

type GO315 struct {
	Y uint64  `json:"<t>,string"`
	*GO38 `json:"id"`
	ID JInt  `json:"-"`
}

type gO316 struct {
	*gO285 
	AA float64  `json:"-"`
	Name bool  `json:"-"`
	*gO281 
	GO286 `json:",omitempty"`
	*GO194 
}

type gO317 struct {
	K *float64  `json:"-"`
	Name map[string]int  `json:"ks,omitempty"`
	AB interface{}  `json:"a"`
	*gO321 
	S uint8  `json:"ks"`
	X int  `json:"-"`
	A struct{}  `json:"K"`
	AA int  `json:",omitempty"`
	C NStr  `json:"-"`
	Y NInt  `json:"-"`
	Ks float64  `json:",omitempty"`
	Aa int  `json:"-"`
	GO65 
	D *string  `json:"0,omitempty"`
}

type GO318 struct {
	*GO318 `json:"a\\b"`
	GFace  
	X bool  `json:",omitempty"`
	*GO322 
}

type GO319 struct {
	*gO59 
	Ks map[string]int  `json:"a-b,omitempty"`
	É *int  `json:"-"`
	*gO73 
	D int8  `json:"-"`
	*gO270 
	S string  `json:"B"`
}

type GO320 struct {
	*GO322 
}

type gO321 struct {
	*GO318 
	D uint64  `json:"<t>,string"`
	C TStr  `json:"-"`
}

type GO322 struct {
	AA uint8  `json:"-"`
	*GO322 `json:",omitempty"`
	A [2]int  `json:"B"`
	gO58 
	ID JInt  `json:"-"`
}

type GO323 struct {
	ID [0]int  `json:"-"`
	K [2]int  `json:"-"`
	*GO315 
	GO13 
}

type GO324 struct {
	GO40 
}

type gO325 struct {
	GO53 
	gO5 `json:",omitempty"`
	S string  `json:"ſ,omitempty"`
	AB uint64  `json:"k,string"`
}

type GO326 struct {
	*gO317 
	GO271 `json:"a.b"`
	gO300 `json:"ß"`
}

type gO327 struct {
	*gO327 
	ID uint8  `json:",omitempty"`
	*gO105 
	GO51 
}

type GO328 struct {
	A map[string]*NInt  `json:"<t>"`
	AA NStr  `json:"-"`
	gO46 
	D int  `json:"ß"`
	S json.Number  `json:"ß"`
	ID uint8  `json:"-"`
	K float32  `json:"D"`
	É bool  `json:"-"`
	Id float64  `json:"a,omitempty"`
	Ks NStr  `json:"0"`
	Y uint64  `json:"-"`
}

type GO329 struct {
	*gO46 
	A string  `json:",omitempty,string"`
}

type GO330 struct {
	*GO328 `json:"a\\b"`
	*GO183 
	GO94 
	GO288 
}

type gO331 struct {
	*gO46 
	*gO331 
	Aa json.Number  `json:"-"`
}

type gO332 struct {
	A string  `json:"x y,string,string"`
	*gO127 
	GFace  
}

type GO333 struct {
	GO306 `json:"ks,omitempty"`
	a int  `json:"b"`
	B uint8  `json:"x y"`
}

type gO334 struct {
	A uint64  `json:"-"`
	*gO61 
	X int  `json:"-"`
	C string  `json:"-"`
	*GO69 
	GO16 `json:"x y"`
	k int8  `json:"-"`
}

type GO335 struct {
	AB uint64  `json:"-"`
	*gO272 
	*GO269 
	X string  `json:"ſ,omitempty"`
}

type GO336 struct {
	GO322 
	*GO65 
}

type GO337 struct {
	AB []byte  `json:"K"`
	Id uint8  `json:"-"`
	gO23 `json:"é"`
}

type gO338 struct {
	GO99 `json:"a\\b"`
	GO228 
	Name uint8  `json:"x y,string"`
}

type GO339 struct {
	b NInt  `json:"-"`
	S int  `json:"-"`
	Y NInt  `json:"x y,omitempty"`
	GO164 
	Aa string  `json:"-,"`
}

type gO340 struct {
	*GO302 `json:"0"`
}

type GO341 struct {
	*gnum  
	gO64 
	gO2 
	S int64  `json:"-"`
	D TStr  `json:"id,omitempty"`
	C [0]int  `json:"-"`
	B float32  `json:"-"`
	GO337 
}

type gO342 struct {
	*GO183 
	GIface  
}

type gO343 struct {
	D int64  `json:"-"`
	C [2]int  `json:"K,omitempty"`
	*GO220 
}

type gO344 struct {
	GO329 
	GO337 
	K string  `json:",omitempty"`
	A int64  `json:"<t>,string"`
	S interface{}  `json:"é,omitempty"`
}

type gO345 struct {
	*gO350 
	*GO15 
}

type GO346 struct {
	*gO347 
	Y int  `json:"-"`
	ID bool  `json:"-"`
	Aa float32  `json:"id,omitempty"`
}

type gO347 struct {
	Name float32  `json:"-"`
	AA [0]int  `json:"-"`
	*gO23 
	C float64  `json:"-"`
	É int  `json:"ks"`
}

type GO348 struct {
	É uint8  `json:"-"`
	D float64  `json:",omitempty,string"`
	*GO56 
	k uint8  `json:"-"`
	gO18 
	GO19 
	Id bool  `json:"-"`
	gO54 
	X int  `json:"ß,string"`
	AB int64  `json:",,omitempty"`
}

type GO349 struct {
	Ks NInt  `json:"b"`
	Aa map[string]int  `json:"-"`
	B *TStruct  `json:"-"`
	C NInt  `json:"k,omitempty,string"`
	Id bool  `json:",omitempty"`
	x NInt  `json:"-"`
	*gO275 
}

type gO350 struct {
	*gO270 
	*gO334 `json:",omitempty"`
	gO311 `json:"D,omitempty"`
	GNum  
}

type GO351 struct {
	É bool  `json:"-"`
	Aa int64  `json:"-"`
	x uint8  `json:"ſ"`
	*gO325 
	AA int8  `json:"<t>,omitempty"`
}

type GO352 struct {
	D float64  `json:"-"`
	gO331 
	*GO352 
	GO50 
}

type gO353 struct {
	AB NInt  `json:"k,string"`
	GO278 
	Aa struct{}  `json:"a-b,omitempty"`
	*GO274 `json:"a,omitempty"`
	*GO251 
}

type GO354 struct {
	GO348 `json:"-"`
	GO251 
	X int  `json:"b"`
	GO322 
	*GO337 
	É float64  `json:"-"`
	b uint8  `json:"-"`
	Ks uint64  `json:"id"`
	S []int  `json:"-"`
	Y int  `json:"c,omitempty,string"`
}

type GO355 struct {
	C string  `json:",omitempty"`
	*GO299 
	S []int  `json:",omitempty"`
	id NInt  `json:"-"`
	A int8  `json:"é,omitempty"`
}

type GO356 struct {
	S [0]int  `json:"c"`
	*GO356 
	B int8  `json:"b"`
}

type gO357 struct {
	A float32  `json:"-"`
	Aa *int  `json:"a"`
	*gO358 
	Ks TStr  `json:"<t>,omitempty"`
	Name string  `json:"-"`
}

type gO358 struct {
	Ks int8  `json:"-"`
	GO36 `json:"a\\b"`
	S NInt  `json:"<t>,string"`
	id uint8  `json:"D,omitempty"`
	Y uint8  `json:"-"`
	*GO40 
}

type GO359 struct {
	Ks uint64  `json:"-,"`
	D *string  `json:"ß"`
	Y uint64  `json:"0,omitempty"`
	B bool  `json:",omitempty,string"`
	c NStr  `json:"-,"`
	GO328 
	id string  `json:"name,string"`
}

type GO360 struct {
	*GO362 
	gface  `json:"ß"`
	GO356 `json:"a\\b"`
}

type GO361 struct {
	X float32  `json:"x y,omitempty"`
	GO36 
	AA string  `json:"-,"`
	id string  `json:",omitempty"`
	K string  `json:"K"`
}

type GO362 struct {
	c int8  `json:"k"`
	AB string  `json:"-,"`
	GO322 `json:"-"`
	a NStr  `json:"name"`
	Ks int8  `json:"K"`
	ID uint64  `json:"-"`
	Name string  `json:"-"`
}

type gO363 struct {
	*GO315 
	*GO322 
	*GO365 
	*gO363 
	Y string  `json:"-"`
}

type gO364 struct {
	Id [0]int  `json:"name,omitempty"`
	*GO354 
	Y int  `json:"-"`
	B NStr  `json:"D"`
	É string  `json:"name"`
	Ks map[string]int  `json:"-"`
	AB uint64  `json:"ks,string"`
}

type GO365 struct {
	Ks NInt  `json:"ks"`
	*gO31 
	GO49 
}

type GO366 struct {
	*GO309 
	GO323 
	GO243 `json:"a\\b"`
	aa int64  `json:"A,omitempty"`
	gO350 `json:"-"`
}

type GO367 struct {
	D json.Number  `json:"-"`
	GO69 
	X int64  `json:"-"`
	Id string  `json:"-"`
	É string  `json:"c,omitempty,string"`
	K string  `json:"a,string"`
	Y interface{}  `json:"-"`
	AB float64  `json:"-"`
	aa int  `json:"<t>"`
	*GO66 
	B float64  `json:"-"`
	AA NInt  `json:"-"`
	Name float32  `json:"-"`
	S int  `json:"ſ"`
}

type GO368 struct {
	AB int  `json:"-"`
	Name string  `json:"-"`
	GO269 
	K string  `json:"ſ"`
	S uint64  `json:"-"`
	*GO324 
}

type gO369 struct {
	Name bool  `json:"-"`
	gO64 
	GO203 
}

type GO370 struct {
	É int8  `json:"-"`
	AA JInt  `json:"a"`
	A bool  `json:"é"`
	gmap  `json:"id"`
	Y NStr  `json:""`
	*gO347 
	*GO262 
	gO270 
	AB struct{}  `json:"B"`
}

type GO371 struct {
	*GO36 `json:"aA"`
	*GO38 `json:"a.b"`
}

type gO372 struct {
	GO322 
	X string  `json:",string"`
	*GO377 
	Name float32  `json:"name,omitempty"`
	AB float64  `json:"-"`
	ID json.Number  `json:",omitempty"`
}

type GO373 struct {
	Name string  `json:"-"`
	*GO376 `json:",omitempty"`
	GO322 
}

type GO374 struct {
	*GO374 
	Id []byte  `json:"a-b,omitempty"`
	É NInt  `json:"B"`
	AA JInt  `json:"id"`
}

type gO375 struct {
	A []string  `json:"-"`
	Y TStr  `json:"a.b,omitempty"`
	*GO371 
}

type GO376 struct {
	gO259 
	GO320 
	Name map[string]*NInt  `json:"-"`
	c uint8  `json:"k,string"`
}

type GO377 struct {
	c int  `json:"-"`
	Name int  `json:"a-b,omitempty"`
	Ks uint8  `json:",string,string"`
	gO30 
}

type GO378 struct {
	D TStr  `json:",omitempty"`
	GO202 `json:"é,omitempty"`
}

type gO379 struct {
	gO61 `json:",omitempty"`
	Name NInt  `json:"D,omitempty"`
	GFace  
	AA []byte  `json:",omitempty"`
}

type gO380 struct {
	A float32  `json:"-"`
	*GO361 
	Y float64  `json:"-"`
}

type GO381 struct {
	Aa int  `json:"-"`
	id int8  `json:"-,"`
	Name **int  `xml:"x" json:"b"`
	A **int  `json:"-"`
	gO331 
	b string  `json:"-"`
	C uint64  `json:"-,"`
}

type GO382 struct {
	gO343 
	aa bool  `json:"-"`
	gO375 `json:"D"`
	É float64  `json:"-"`
	S interface{}  `json:"-"`
	*gO285 
	GHook  `json:"-"`
}

type GO383 struct {
	GHook  
	AB int  `json:"-"`
}

type GO384 struct {
	Y json.Number  `json:"-"`
	*gO62 
}

type gO385 struct {
	Aa []string  `json:"-"`
	Id bool  `json:",omitempty"`
	a int8  `json:"é,omitempty"`
	Y map[string]int  `json:"-"`
	k int  `json:"-"`
	*GO377 
	ID NInt  `json:"0,string"`
	gO358 
}

type GO386 struct {
	GO40 
	*GO386 
}

type GO387 struct {
	S uint8  `json:"k,omitempty"`
	Aa TStr  `json:"-"`
	AA string  `json:"-"`
	*GO387 
	GO22 
	A float32  `json:"A"`
	AB string  `json:"id,omitempty,string"`
	É []string  `json:"-"`
}

type GO388 struct {
	*GO217 
	C bool  `json:"-"`
	x uint8  `json:"x y"`
	Id string  `json:"-"`
}

type GO389 struct {
	K bool  `json:"K"`
	*GO103 
}

type gO390 struct {
	gO369 
	aa uint64  `json:"-"`
	Y float32  `json:"-"`
}

type GO391 struct {
	A float32  `json:"K,omitempty"`
	GO368 
}

type GO392 struct {
	*gO395 
	Name interface{}  `json:"-"`
	GO49 
}

type GO393 struct {
	b float32  `json:"-"`
	D JInt  `json:"ſ,omitempty"`
	gO26 
}

type GO394 struct {
	Ks NStr  `json:"-"`
	*gO11 
	GO57 
	gO60 
	*GO43 
}

type gO395 struct {
	Ks map[string]int  `json:"-"`
	gO158 
	GFace  
	gO353 `json:"K"`
	c NStr  `json:"ſ,string"`
	*gO395 
}

type GO396 struct {
	É NStr  `json:"id"`
	A [2]int  `json:"D"`
	K int  `json:"ks,omitempty"`
	*GO399 
	GO22 
}

type gO397 struct {
	K NInt  `json:"-"`
	gO115 
	*GO368 `json:"b,omitempty"`
	B []string  `json:"-,"`
}

type GO398 struct {
	B int  `json:",omitempty,string"`
	AA uint8  `json:"a.b,string"`
	*gO29 
	ID uint8  `json:"-"`
	D int8  `json:"-"`
	*GO47 
}

type GO399 struct {
	gO34 
	*GO3 `json:"b"`
	GO56 
	gO39 `json:"B"`
	Id struct{}  `json:"a,omitempty"`
}

type gO400 struct {
	*gO7 
	*gO17 
	GO37 `json:"a\\b"`
	AA uint64  `json:"-"`
	*GO402 
}

type GO401 struct {
	*GO406 
	GO255 
	Id float32  `json:"x y"`
}

type GO402 struct {
	S *int  `json:"-"`
	GO27 
	Ks int64  `json:"-"`
}

type gO403 struct {
	ID *int  `json:"name"`
	Id map[string]int  `json:"ß,omitempty"`
	S string  `json:",omitempty"`
	*gO59 
	aa int64  `json:"D,omitempty"`
	É float64  `json:"-"`
	b string  `json:"-"`
	GO38 
	C *TStruct  `json:"-"`
	GO43 
	Name int64  `json:",omitempty,string"`
	Ks *TStruct  `json:"-"`
	k int  `json:"-"`
	Y map[string]int  `json:"id"`
	GO67 
}

type GO404 struct {
	S int  `json:"-"`
	D uint8  `json:"-"`
	Aa int  `json:"é,omitempty,string"`
	GO361 
	*GO384 
	*GO406 
	x int64  `json:"A,omitempty"`
}

type GO405 struct {
	X int  `json:"-"`
	É int  `json:"-,"`
	*GO35 
	*GO37 
	Name *string  `json:"id"`
	Y uint8  `json:",omitempty"`
}

type GO406 struct {
	gO403 
}

type gO407 struct {
	Y uint64  `json:"-"`
	AA NInt  `json:"-"`
	É string  `json:"-,"`
	*gO46 
	K map[string]int  `json:"-"`
	*gO412 
}

type GO408 struct {
	*gnum  
	X int  `json:"-"`
	*GO302 `json:"a\\b"`
	*GO408 
}

type gO409 struct {
	Y uint64  `json:"A,string"`
	*gO353 
	Name string  `json:"-"`
}

type GO410 struct {
	gO372 
	GO387 
	*GO370 
}

type gO411 struct {
	AB NStr  `json:"x y,string"`
	b string  `json:"-"`
	*GO52 `json:"name,omitempty"`
	K uint64  `json:",omitempty,string"`
}

type gO412 struct {
	GO28 
}

type gO413 struct {
	D float64  `json:"-"`
	GO249 
	É int  `json:",string"`
}

type GO414 struct {
	Y string  `json:"-"`
	Name [0]int  `json:"aA,omitempty"`
	K int64  `json:",omitempty,string"`
	Ks float64  `json:"<t>,omitempty"`
	GO56 `json:"K"`
	Aa NStr  `json:"-"`
}

type GO415 struct {
	GO396 
	*GO22 `json:"-"`
	*gO418 
	D NStr  `json:"-"`
	A int  `json:"ſ"`
}

type GO416 struct {
	gO357 
	*GO416 
	GO69 `json:"-"`
	C int64  `json:"-"`
	Id float32  `json:"-"`
	GO371 
}

type GO417 struct {
	É *string  `json:"id,omitempty"`
	Ks JInt  `json:"-"`
	Id float32  `json:"-"`
	GHook  
	AB uint8  `json:"-,"`
	*gO46 
}

type gO418 struct {
	C NStr  `json:"é,omitempty"`
	Name map[string]*NInt  `json:"-"`
	Ks NStr  `json:"-"`
	Id *string  `json:"-"`
	*GO367 
	gO357 
	ID int  `json:"-"`
}

type GO419 struct {
	Ks bool  `json:"D"`
	gO68 
	AB [2]int  `json:"-"`
	GO43 
	A uint8  `json:"-"`
	gO11 
	GO47 
}

type GO420 struct {
	B string  `json:"-"`
}

type gO421 struct {
	B NInt  `json:"-,"`
	C int64  `json:"<t>,omitempty"`
}

type GO422 struct {
	*gO421 
}

type gO423 struct {
	*gO421 
}

type GO424 struct {
	*GO420 
}

type GO425 struct {
	ID map[string]int  `json:"-"`
	D []int  `json:"-"`
}

type GO426 struct {
	*GO422 
	GO424 
}

type gO427 struct {
	*gO421 
	*GO420 
}

type gO428 struct {
	K int  `json:"-"`
	Name string  `json:"ks"`
}

type gO429 struct {
	Id *int  `json:"ſ"`
}

type GO430 struct {
	*gO428 
}

type GO431 struct {
	*GO426 
	gO428 
}

type gO432 struct {
	GO425 
}

type GO433 struct {
	GO431 
	*GO430 
	Aa uint64  `json:"ks"`
}

type GO434 struct {
	*GO426 
}

type GO435 struct {
	*gO423 
}

type GO436 struct {
	Name int  `json:"-"`
	Aa NStr  `json:"-"`
}

type GO437 struct {
	*GO431 
	*GO434 
}

type GO438 struct {
	*GO436 
}

type GO439 struct {
	*gO429 
	Y int  `json:",string"`
}

type GO440 struct {
	*GO438 
	gO429 
	AA uint8  `json:",omitempty,string"`
}

type gO441 struct {
	GO438 
}

type gO442 struct {
	É uint64  `json:"-"`
	A string  `json:"-"`
}

type GO443 struct {
	GO433 
}

type GO444 struct {
	D float64  `json:"-"`
	S bool  `json:"id,omitempty"`
}

type gO445 struct {
	A interface{}  `json:"-"`
	ID NStr  `json:"-"`
}

type GO446 struct {
	*gO427 
}

type GO447 struct {
	Id NInt  `json:"-"`
}

type GO448 struct {
	*gO428 
}

type GO449 struct {
	*GO438 
}

type GO450 struct {
	GO425 
	C int64  `json:"a.b,omitempty"`
}

type GO451 struct {
	*gO423 
}

type GO452 struct {
	*GO426 
}

type GO453 struct {
	*gO429 
	GO420 
}

type gO454 struct {
	AA []int  `json:"-"`
	A uint8  `json:"aA"`
}

type GO455 struct {
	*GO449 
	AB string  `json:"-"`
}

type GO456 struct {
	Ks float64  `json:"-"`
}

type GO457 struct {
	*GO424 
}

type gO458 struct {
	AA NInt  `json:"id,omitempty"`
}

type GO459 struct {
	GO431 
}

type GO460 struct {
	Y *int  `json:"-"`
	Aa uint64  `json:"-"`
}

type GO461 struct {
	*GO455 
}

type GO462 struct {
	*gO445 
}

type GO463 struct {
	gO427 
}

type gO464 struct {
	*GO431 
}

type GO465 struct {
	*GO426 
	GO447 
}

type GO466 struct {
	*gO464 
}

type gO467 struct {
	*GO451 
	*GO463 
	É uint64  `json:"A"`
}

type GO468 struct {
	A map[string]int  `json:",omitempty"`
	Ks int  `json:"A,omitempty"`
}

type gO469 struct {
	*gO427 
}

type GO470 struct {
	*GO436 
	*GO440 
}

type GO471 struct {
	*gO469 
	gO428 `json:"a\\b"`
}

type GO472 struct {
	GO462 
	Y NInt  `json:"-"`
}

type GO473 struct {
	Aa interface{}  `json:"-"`
}

type GO474 struct {
	gO428 
}

type gO475 struct {
	*GO425 
}

type GO476 struct {
	K *string  `json:"-"`
}

type GO477 struct {
	*gO464 
	gO454 
}

type GO478 struct {
	B *string  `json:"ß"`
}

type GO479 struct {
	*GO474 
	AB int8  `json:"-"`
}

type gO480 struct {
	É NInt  `json:"A"`
}

type gO481 struct {
	Aa NInt  `json:"c,omitempty"`
	K bool  `json:"b"`
}

type gO482 struct {
	GO424 
	GO449 `json:"-"`
}

type GO483 struct {
	Id int  `json:",omitempty"`
}

type GO484 struct {
	GO478 
}

type gO485 struct {
	É int  `json:"é"`
	X *string  `json:"aA"`
}

type GO486 struct {
	X string  `json:"K"`
}

type GO487 struct {
	S float32  `json:"-"`
}

type GO488 struct {
	*GO468 
}

type gO489 struct {
	GO436 `json:"b"`
}

type gO490 struct {
	K []int  `json:"<t>"`
	D interface{}  `json:"-"`
}

type GO491 struct {
	gO454 
}

type GO492 struct {
	ID map[string]int  `json:"-"`
}

type GO493 struct {
	*gO445 
}

type gO494 struct {
	B uint64  `json:"id"`
	Id int  `json:"x y"`
}

type GO495 struct {
	*GO448 
}

type gO496 struct {
	*GO453 
}

type GO497 struct {
	Y uint8  `json:"-"`
}

type GO498 struct {
	A int64  `json:"a.b"`
}

type gO499 struct {
	*gO475 
}

type GO500 struct {
	X uint64  `json:"-"`
}

type GO501 struct {
	*gO467 
	*GO491 
	X int64  `json:"-"`
}

type gO502 struct {
	*gO494 
}

type GO503 struct {
	*GO462 
}

type gO504 struct {
	Aa string  `json:"-"`
}

type GO505 struct {
	*gO504 
	D uint64  `json:"-"`
}

type GO506 struct {
	gO504 
}

type gO507 struct {
	gO504 
	AA uint8  `json:"-"`
}

type GO508 struct {
	gO504 
	ID bool  `json:"B"`
}

type GO509 struct {
	*gO504 
	Ks float32  `json:"-"`
}

type GO510 struct {
	*GO505 
	GO509 
	*gO507 
	GO508 
	*GO506 
	Name string  `json:"c,omitempty,string"`
}

type GO511 struct {
	*GO508 
	*GO506 
	GO505 
}

type GO512 struct {
	S int64  `json:"-"`
	AB NStr  `json:"-"`
}

type GO513 struct {
	GO512 
}

type GO514 struct {
	GO512 
	S string  `json:"c,string"`
}

type gO515 struct {
	GO512 
}

type GO516 struct {
	GO512 
}

type GO517 struct {
	GO512 
}

type gO518 struct {
	GO517 
	GO513 
}

type GO519 struct {
	gO515 
	GO517 
	gO518 
	*GO516 
	GO513 
}

type GO520 struct {
	C string  `json:"id,omitempty"`
	D string  `json:",string"`
	B float32  `json:"-,"`
}

type GO521 struct {
	GO520 
}

type gO522 struct {
	GO520 
	C uint64  `json:"b,omitempty"`
}

type gO523 struct {
	GO520 
	Ks int  `json:"-"`
}

type GO524 struct {
	*GO520 
}

type GO525 struct {
	GO520 
}

type gO526 struct {
	*gO523 
	GO521 
	*GO524 
}

type gO527 struct {
	GO524 
	gO526 
	GO525 
	*gO522 
	ID NInt  `json:",omitempty"`
}

type GO528 struct {
	C int  `json:"-"`
	AA NInt  `json:"name,omitempty"`
	D int  `json:"aA,string,omitempty,string"`
}

type gO529 struct {
	GO528 
}

type GO530 struct {
	*GO528 
	A float64  `json:"-,"`
}

type gO531 struct {
	GO528 
}

type gO532 struct {
	GO528 
}

type GO533 struct {
	*GO528 
	K bool  `json:"-"`
}

type gO534 struct {
	gO532 
	GO530 
	GO533 
	gO529 
}

type GO535 struct {
	gO529 
	GO530 
}

type GO536 struct {
	D bool  `json:"id,omitempty"`
}

type GO537 struct {
	GO536 
}

type GO538 struct {
	GO536 
	Aa string  `json:"-"`
}

type GO539 struct {
	GO536 
}

type GO540 struct {
	GO536 
}

type GO541 struct {
	GO536 
}

type GO542 struct {
	*GO540 
	GO539 
	GO541 
}

type GO543 struct {
	GO538 
	GO537 
	*GO539 
	*GO540 
	GO541 
	K string  `json:"-"`
}

// from here on the types have few members
const gsSmall = 420

var gsTypes = []reflect.Type{
	tOf(G0{}),
	tOf(G1{}),
	tOf(g2{}),
	tOf(G3{}),
	tOf(g4{}),
	tOf(g5{}),
	tOf(g6{}),
	tOf(g7{}),
	tOf(g8{}),
	tOf(G9{}),
	tOf(G10{}),
	tOf(g11{}),
	tOf(g12{}),
	tOf(G13{}),
	tOf(G14{}),
	tOf(G15{}),
	tOf(G16{}),
	tOf(g17{}),
	tOf(g18{}),
	tOf(G19{}),
	tOf(G20{}),
	tOf(G21{}),
	tOf(G22{}),
	tOf(g23{}),
	tOf(G24{}),
	tOf(G25{}),
	tOf(g26{}),
	tOf(G27{}),
	tOf(G28{}),
	tOf(g29{}),
	tOf(g30{}),
	tOf(g31{}),
	tOf(G32{}),
	tOf(g33{}),
	tOf(g34{}),
	tOf(G35{}),
	tOf(G36{}),
	tOf(G37{}),
	tOf(G38{}),
	tOf(g39{}),
	tOf(G40{}),
	tOf(g41{}),
	tOf(G42{}),
	tOf(G43{}),
	tOf(G44{}),
	tOf(G45{}),
	tOf(g46{}),
	tOf(G47{}),
	tOf(g48{}),
	tOf(G49{}),
	tOf(G50{}),
	tOf(G51{}),
	tOf(G52{}),
	tOf(G53{}),
	tOf(g54{}),
	tOf(g55{}),
	tOf(G56{}),
	tOf(G57{}),
	tOf(g58{}),
	tOf(g59{}),
	tOf(g60{}),
	tOf(g61{}),
	tOf(g62{}),
	tOf(G63{}),
	tOf(g64{}),
	tOf(G65{}),
	tOf(G66{}),
	tOf(G67{}),
	tOf(g68{}),
	tOf(G69{}),
	tOf(g70{}),
	tOf(G71{}),
	tOf(G72{}),
	tOf(g73{}),
	tOf(g74{}),
	tOf(g75{}),
	tOf(G76{}),
	tOf(G77{}),
	tOf(G78{}),
	tOf(G79{}),
	tOf(G80{}),
	tOf(G81{}),
	tOf(G82{}),
	tOf(G83{}),
	tOf(g84{}),
	tOf(G85{}),
	tOf(G86{}),
	tOf(g87{}),
	tOf(g88{}),
	tOf(G89{}),
	tOf(G90{}),
	tOf(g91{}),
	tOf(G92{}),
	tOf(G93{}),
	tOf(G94{}),
	tOf(g95{}),
	tOf(g96{}),
	tOf(G97{}),
	tOf(G98{}),
	tOf(G99{}),
	tOf(G100{}),
	tOf(G101{}),
	tOf(G102{}),
	tOf(G103{}),
	tOf(G104{}),
	tOf(g105{}),
	tOf(G106{}),
	tOf(G107{}),
	tOf(G108{}),
	tOf(g109{}),
	tOf(G110{}),
	tOf(g111{}),
	tOf(g112{}),
	tOf(g113{}),
	tOf(G114{}),
	tOf(g115{}),
	tOf(g116{}),
	tOf(G117{}),
	tOf(g118{}),
	tOf(G119{}),
	tOf(g120{}),
	tOf(G121{}),
	tOf(G122{}),
	tOf(G123{}),
	tOf(G124{}),
	tOf(G125{}),
	tOf(G126{}),
	tOf(g127{}),
	tOf(G128{}),
	tOf(g129{}),
	tOf(g130{}),
	tOf(G131{}),
	tOf(g132{}),
	tOf(G133{}),
	tOf(g134{}),
	tOf(G135{}),
	tOf(G136{}),
	tOf(g137{}),
	tOf(G138{}),
	tOf(G139{}),
	tOf(g140{}),
	tOf(G141{}),
	tOf(G142{}),
	tOf(g143{}),
	tOf(G144{}),
	tOf(G145{}),
	tOf(G146{}),
	tOf(G147{}),
	tOf(g148{}),
	tOf(G149{}),
	tOf(G150{}),
	tOf(g151{}),
	tOf(g152{}),
	tOf(G153{}),
	tOf(G154{}),
	tOf(g155{}),
	tOf(g156{}),
	tOf(G157{}),
	tOf(g158{}),
	tOf(G159{}),
	tOf(G160{}),
	tOf(G161{}),
	tOf(g162{}),
	tOf(G163{}),
	tOf(G164{}),
	tOf(G165{}),
	tOf(G166{}),
	tOf(g167{}),
	tOf(g168{}),
	tOf(G169{}),
	tOf(g170{}),
	tOf(G171{}),
	tOf(g172{}),
	tOf(G173{}),
	tOf(G174{}),
	tOf(g175{}),
	tOf(G176{}),
	tOf(G177{}),
	tOf(g178{}),
	tOf(G179{}),
	tOf(g180{}),
	tOf(G181{}),
	tOf(g182{}),
	tOf(G183{}),
	tOf(G184{}),
	tOf(G185{}),
	tOf(g186{}),
	tOf(G187{}),
	tOf(G188{}),
	tOf(g189{}),
	tOf(G190{}),
	tOf(G191{}),
	tOf(G192{}),
	tOf(g193{}),
	tOf(G194{}),
	tOf(g195{}),
	tOf(G196{}),
	tOf(G197{}),
	tOf(g198{}),
	tOf(g199{}),
	tOf(G200{}),
	tOf(g201{}),
	tOf(G202{}),
	tOf(G203{}),
	tOf(G204{}),
	tOf(g205{}),
	tOf(g206{}),
	tOf(G207{}),
	tOf(G208{}),
	tOf(G209{}),
	tOf(g210{}),
	tOf(G211{}),
	tOf(G212{}),
	tOf(G213{}),
	tOf(g214{}),
	tOf(G215{}),
	tOf(G216{}),
	tOf(G217{}),
	tOf(G218{}),
	tOf(g219{}),
	tOf(G220{}),
	tOf(g221{}),
	tOf(G222{}),
	tOf(G223{}),
	tOf(G224{}),
	tOf(g225{}),
	tOf(g226{}),
	tOf(G227{}),
	tOf(G228{}),
	tOf(g229{}),
	tOf(g230{}),
	tOf(G231{}),
	tOf(g232{}),
	tOf(g233{}),
	tOf(G234{}),
	tOf(g235{}),
	tOf(G236{}),
	tOf(G237{}),
	tOf(G238{}),
	tOf(g239{}),
	tOf(G240{}),
	tOf(G241{}),
	tOf(G242{}),
	tOf(G243{}),
	tOf(g244{}),
	tOf(G245{}),
	tOf(G246{}),
	tOf(G247{}),
	tOf(G248{}),
	tOf(G249{}),
	tOf(G250{}),
	tOf(G251{}),
	tOf(G252{}),
	tOf(g253{}),
	tOf(g254{}),
	tOf(G255{}),
	tOf(g256{}),
	tOf(g257{}),
	tOf(g258{}),
	tOf(g259{}),
	tOf(g260{}),
	tOf(g261{}),
	tOf(G262{}),
	tOf(G263{}),
	tOf(G264{}),
	tOf(G265{}),
	tOf(G266{}),
	tOf(G267{}),
	tOf(G268{}),
	tOf(G269{}),
	tOf(g270{}),
	tOf(G271{}),
	tOf(g272{}),
	tOf(G273{}),
	tOf(G274{}),
	tOf(g275{}),
	tOf(G276{}),
	tOf(G277{}),
	tOf(G278{}),
	tOf(G279{}),
	tOf(g280{}),
	tOf(g281{}),
	tOf(G282{}),
	tOf(G283{}),
	tOf(g284{}),
	tOf(g285{}),
	tOf(G286{}),
	tOf(G287{}),
	tOf(G288{}),
	tOf(G289{}),
	tOf(g290{}),
	tOf(G291{}),
	tOf(G292{}),
	tOf(G293{}),
	tOf(g294{}),
	tOf(g295{}),
	tOf(G296{}),
	tOf(G297{}),
	tOf(g298{}),
	tOf(G299{}),
	tOf(g300{}),
	tOf(g301{}),
	tOf(G302{}),
	tOf(G303{}),
	tOf(g304{}),
	tOf(G305{}),
	tOf(G306{}),
	tOf(G307{}),
	tOf(G308{}),
	tOf(G309{}),
	tOf(G310{}),
	tOf(g311{}),
	tOf(G312{}),
	tOf(g313{}),
	tOf(g314{}),
	tOf(G315{}),
	tOf(g316{}),
	tOf(g317{}),
	tOf(G318{}),
	tOf(G319{}),
	tOf(G320{}),
	tOf(g321{}),
	tOf(G322{}),
	tOf(G323{}),
	tOf(G324{}),
	tOf(g325{}),
	tOf(G326{}),
	tOf(g327{}),
	tOf(G328{}),
	tOf(G329{}),
	tOf(G330{}),
	tOf(g331{}),
	tOf(g332{}),
	tOf(G333{}),
	tOf(g334{}),
	tOf(G335{}),
	tOf(G336{}),
	tOf(G337{}),
	tOf(g338{}),
	tOf(G339{}),
	tOf(g340{}),
	tOf(G341{}),
	tOf(g342{}),
	tOf(g343{}),
	tOf(g344{}),
	tOf(g345{}),
	tOf(G346{}),
	tOf(g347{}),
	tOf(G348{}),
	tOf(G349{}),
	tOf(g350{}),
	tOf(G351{}),
	tOf(G352{}),
	tOf(g353{}),
	tOf(G354{}),
	tOf(G355{}),
	tOf(G356{}),
	tOf(g357{}),
	tOf(g358{}),
	tOf(G359{}),
	tOf(G360{}),
	tOf(G361{}),
	tOf(G362{}),
	tOf(g363{}),
	tOf(g364{}),
	tOf(G365{}),
	tOf(G366{}),
	tOf(G367{}),
	tOf(G368{}),
	tOf(g369{}),
	tOf(G370{}),
	tOf(G371{}),
	tOf(g372{}),
	tOf(G373{}),
	tOf(G374{}),
	tOf(g375{}),
	tOf(G376{}),
	tOf(G377{}),
	tOf(G378{}),
	tOf(g379{}),
	tOf(g380{}),
	tOf(G381{}),
	tOf(G382{}),
	tOf(G383{}),
	tOf(G384{}),
	tOf(g385{}),
	tOf(G386{}),
	tOf(G387{}),
	tOf(G388{}),
	tOf(G389{}),
	tOf(g390{}),
	tOf(G391{}),
	tOf(G392{}),
	tOf(G393{}),
	tOf(G394{}),
	tOf(g395{}),
	tOf(G396{}),
	tOf(g397{}),
	tOf(G398{}),
	tOf(G399{}),
	tOf(g400{}),
	tOf(G401{}),
	tOf(G402{}),
	tOf(g403{}),
	tOf(G404{}),
	tOf(G405{}),
	tOf(G406{}),
	tOf(g407{}),
	tOf(G408{}),
	tOf(g409{}),
	tOf(G410{}),
	tOf(g411{}),
	tOf(g412{}),
	tOf(g413{}),
	tOf(G414{}),
	tOf(G415{}),
	tOf(G416{}),
	tOf(G417{}),
	tOf(g418{}),
	tOf(G419{}),
	tOf(G420{}),
	tOf(g421{}),
	tOf(G422{}),
	tOf(g423{}),
	tOf(G424{}),
	tOf(G425{}),
	tOf(G426{}),
	tOf(g427{}),
	tOf(g428{}),
	tOf(g429{}),
	tOf(G430{}),
	tOf(G431{}),
	tOf(g432{}),
	tOf(G433{}),
	tOf(G434{}),
	tOf(G435{}),
	tOf(G436{}),
	tOf(G437{}),
	tOf(G438{}),
	tOf(G439{}),
	tOf(G440{}),
	tOf(g441{}),
	tOf(g442{}),
	tOf(G443{}),
	tOf(G444{}),
	tOf(g445{}),
	tOf(G446{}),
	tOf(G447{}),
	tOf(G448{}),
	tOf(G449{}),
	tOf(G450{}),
	tOf(G451{}),
	tOf(G452{}),
	tOf(G453{}),
	tOf(g454{}),
	tOf(G455{}),
	tOf(G456{}),
	tOf(G457{}),
	tOf(g458{}),
	tOf(G459{}),
	tOf(G460{}),
	tOf(G461{}),
	tOf(G462{}),
	tOf(G463{}),
	tOf(g464{}),
	tOf(G465{}),
	tOf(G466{}),
	tOf(g467{}),
	tOf(G468{}),
	tOf(g469{}),
	tOf(G470{}),
	tOf(G471{}),
	tOf(G472{}),
	tOf(G473{}),
	tOf(G474{}),
	tOf(g475{}),
	tOf(G476{}),
	tOf(G477{}),
	tOf(G478{}),
	tOf(G479{}),
	tOf(g480{}),
	tOf(g481{}),
	tOf(g482{}),
	tOf(G483{}),
	tOf(G484{}),
	tOf(g485{}),
	tOf(G486{}),
	tOf(G487{}),
	tOf(G488{}),
	tOf(g489{}),
	tOf(g490{}),
	tOf(G491{}),
	tOf(G492{}),
	tOf(G493{}),
	tOf(g494{}),
	tOf(G495{}),
	tOf(g496{}),
	tOf(G497{}),
	tOf(G498{}),
	tOf(g499{}),
	tOf(G500{}),
	tOf(G501{}),
	tOf(g502{}),
	tOf(G503{}),
	tOf(g504{}),
	tOf(G505{}),
	tOf(G506{}),
	tOf(g507{}),
	tOf(G508{}),
	tOf(G509{}),
	tOf(G510{}),
	tOf(G511{}),
	tOf(G512{}),
	tOf(G513{}),
	tOf(G514{}),
	tOf(g515{}),
	tOf(G516{}),
	tOf(G517{}),
	tOf(g518{}),
	tOf(G519{}),
	tOf(G520{}),
	tOf(G521{}),
	tOf(g522{}),
	tOf(g523{}),
	tOf(G524{}),
	tOf(G525{}),
	tOf(g526{}),
	tOf(g527{}),
	tOf(G528{}),
	tOf(g529{}),
	tOf(G530{}),
	tOf(g531{}),
	tOf(g532{}),
	tOf(G533{}),
	tOf(g534{}),
	tOf(G535{}),
	tOf(G536{}),
	tOf(G537{}),
	tOf(G538{}),
	tOf(G539{}),
	tOf(G540{}),
	tOf(G541{}),
	tOf(G542{}),
	tOf(G543{}),
}

var gsAlt = []reflect.Type{
	tOf(GA0{}),
	tOf(GA1{}),
	tOf(gA2{}),
	tOf(GA3{}),
	tOf(gA4{}),
	tOf(gA5{}),
	tOf(gA6{}),
	tOf(gA7{}),
	tOf(gA8{}),
	tOf(GA9{}),
	tOf(GA10{}),
	tOf(gA11{}),
	tOf(gA12{}),
	tOf(GA13{}),
	tOf(GA14{}),
	tOf(GA15{}),
	tOf(GA16{}),
	tOf(gA17{}),
	tOf(gA18{}),
	tOf(GA19{}),
	tOf(GA20{}),
	tOf(GA21{}),
	tOf(GA22{}),
	tOf(gA23{}),
	tOf(GA24{}),
	tOf(GA25{}),
	tOf(gA26{}),
	tOf(GA27{}),
	tOf(GA28{}),
	tOf(gA29{}),
	tOf(gA30{}),
	tOf(gA31{}),
	tOf(GA32{}),
	tOf(gA33{}),
	tOf(gA34{}),
	tOf(GA35{}),
	tOf(GA36{}),
	tOf(GA37{}),
	tOf(GA38{}),
	tOf(gA39{}),
	tOf(GA40{}),
	tOf(gA41{}),
	tOf(GA42{}),
	tOf(GA43{}),
	tOf(GA44{}),
	tOf(GA45{}),
	tOf(gA46{}),
	tOf(GA47{}),
	tOf(gA48{}),
	tOf(GA49{}),
	tOf(GA50{}),
	tOf(GA51{}),
	tOf(GA52{}),
	tOf(GA53{}),
	tOf(gA54{}),
	tOf(gA55{}),
	tOf(GA56{}),
	tOf(GA57{}),
	tOf(gA58{}),
	tOf(gA59{}),
	tOf(gA60{}),
	tOf(gA61{}),
	tOf(gA62{}),
	tOf(GA63{}),
	tOf(gA64{}),
	tOf(GA65{}),
	tOf(GA66{}),
	tOf(GA67{}),
	tOf(gA68{}),
	tOf(GA69{}),
	tOf(gA70{}),
	tOf(GA71{}),
	tOf(GA72{}),
	tOf(gA73{}),
	tOf(gA74{}),
	tOf(gA75{}),
	tOf(GA76{}),
	tOf(GA77{}),
	tOf(GA78{}),
	tOf(GA79{}),
	tOf(GA80{}),
	tOf(GA81{}),
	tOf(GA82{}),
	tOf(GA83{}),
	tOf(gA84{}),
	tOf(GA85{}),
	tOf(GA86{}),
	tOf(gA87{}),
	tOf(gA88{}),
	tOf(GA89{}),
	tOf(GA90{}),
	tOf(gA91{}),
	tOf(GA92{}),
	tOf(GA93{}),
	tOf(GA94{}),
	tOf(gA95{}),
	tOf(gA96{}),
	tOf(GA97{}),
	tOf(GA98{}),
	tOf(GA99{}),
	tOf(GA100{}),
	tOf(GA101{}),
	tOf(GA102{}),
	tOf(GA103{}),
	tOf(GA104{}),
	tOf(gA105{}),
	tOf(GA106{}),
	tOf(GA107{}),
	tOf(GA108{}),
	tOf(gA109{}),
	tOf(GA110{}),
	tOf(gA111{}),
	tOf(gA112{}),
	tOf(gA113{}),
	tOf(GA114{}),
	tOf(gA115{}),
	tOf(gA116{}),
	tOf(GA117{}),
	tOf(gA118{}),
	tOf(GA119{}),
	tOf(gA120{}),
	tOf(GA121{}),
	tOf(GA122{}),
	tOf(GA123{}),
	tOf(GA124{}),
	tOf(GA125{}),
	tOf(GA126{}),
	tOf(gA127{}),
	tOf(GA128{}),
	tOf(gA129{}),
	tOf(gA130{}),
	tOf(GA131{}),
	tOf(gA132{}),
	tOf(GA133{}),
	tOf(gA134{}),
	tOf(GA135{}),
	tOf(GA136{}),
	tOf(gA137{}),
	tOf(GA138{}),
	tOf(GA139{}),
	tOf(gA140{}),
	tOf(GA141{}),
	tOf(GA142{}),
	tOf(gA143{}),
	tOf(GA144{}),
	tOf(GA145{}),
	tOf(GA146{}),
	tOf(GA147{}),
	tOf(gA148{}),
	tOf(GA149{}),
	tOf(GA150{}),
	tOf(gA151{}),
	tOf(gA152{}),
	tOf(GA153{}),
	tOf(GA154{}),
	tOf(gA155{}),
	tOf(gA156{}),
	tOf(GA157{}),
	tOf(gA158{}),
	tOf(GA159{}),
	tOf(GA160{}),
	tOf(GA161{}),
	tOf(gA162{}),
	tOf(GA163{}),
	tOf(GA164{}),
	tOf(GA165{}),
	tOf(GA166{}),
	tOf(gA167{}),
	tOf(gA168{}),
	tOf(GA169{}),
	tOf(gA170{}),
	tOf(GA171{}),
	tOf(gA172{}),
	tOf(GA173{}),
	tOf(GA174{}),
	tOf(gA175{}),
	tOf(GA176{}),
	tOf(GA177{}),
	tOf(gA178{}),
	tOf(GA179{}),
	tOf(gA180{}),
	tOf(GA181{}),
	tOf(gA182{}),
	tOf(GA183{}),
	tOf(GA184{}),
	tOf(GA185{}),
	tOf(gA186{}),
	tOf(GA187{}),
	tOf(GA188{}),
	tOf(gA189{}),
	tOf(GA190{}),
	tOf(GA191{}),
	tOf(GA192{}),
	tOf(gA193{}),
	tOf(GA194{}),
	tOf(gA195{}),
	tOf(GA196{}),
	tOf(GA197{}),
	tOf(gA198{}),
	tOf(gA199{}),
	tOf(GA200{}),
	tOf(gA201{}),
	tOf(GA202{}),
	tOf(GA203{}),
	tOf(GA204{}),
	tOf(gA205{}),
	tOf(gA206{}),
	tOf(GA207{}),
	tOf(GA208{}),
	tOf(GA209{}),
	tOf(gA210{}),
	tOf(GA211{}),
	tOf(GA212{}),
	tOf(GA213{}),
	tOf(gA214{}),
	tOf(GA215{}),
	tOf(GA216{}),
	tOf(GA217{}),
	tOf(GA218{}),
	tOf(gA219{}),
	tOf(GA220{}),
	tOf(gA221{}),
	tOf(GA222{}),
	tOf(GA223{}),
	tOf(GA224{}),
	tOf(gA225{}),
	tOf(gA226{}),
	tOf(GA227{}),
	tOf(GA228{}),
	tOf(gA229{}),
	tOf(gA230{}),
	tOf(GA231{}),
	tOf(gA232{}),
	tOf(gA233{}),
	tOf(GA234{}),
	tOf(gA235{}),
	tOf(GA236{}),
	tOf(GA237{}),
	tOf(GA238{}),
	tOf(gA239{}),
	tOf(GA240{}),
	tOf(GA241{}),
	tOf(GA242{}),
	tOf(GA243{}),
	tOf(gA244{}),
	tOf(GA245{}),
	tOf(GA246{}),
	tOf(GA247{}),
	tOf(GA248{}),
	tOf(GA249{}),
	tOf(GA250{}),
	tOf(GA251{}),
	tOf(GA252{}),
	tOf(gA253{}),
	tOf(gA254{}),
	tOf(GA255{}),
	tOf(gA256{}),
	tOf(gA257{}),
	tOf(gA258{}),
	tOf(gA259{}),
	tOf(gA260{}),
	tOf(gA261{}),
	tOf(GA262{}),
	tOf(GA263{}),
	tOf(GA264{}),
	tOf(GA265{}),
	tOf(GA266{}),
	tOf(GA267{}),
	tOf(GA268{}),
	tOf(GA269{}),
	tOf(gA270{}),
	tOf(GA271{}),
	tOf(gA272{}),
	tOf(GA273{}),
	tOf(GA274{}),
	tOf(gA275{}),
	tOf(GA276{}),
	tOf(GA277{}),
	tOf(GA278{}),
	tOf(GA279{}),
	tOf(gA280{}),
	tOf(gA281{}),
	tOf(GA282{}),
	tOf(GA283{}),
	tOf(gA284{}),
	tOf(gA285{}),
	tOf(GA286{}),
	tOf(GA287{}),
	tOf(GA288{}),
	tOf(GA289{}),
	tOf(gA290{}),
	tOf(GA291{}),
	tOf(GA292{}),
	tOf(GA293{}),
	tOf(gA294{}),
	tOf(gA295{}),
	tOf(GA296{}),
	tOf(GA297{}),
	tOf(gA298{}),
	tOf(GA299{}),
	tOf(gA300{}),
	tOf(gA301{}),
	tOf(GA302{}),
	tOf(GA303{}),
	tOf(gA304{}),
	tOf(GA305{}),
	tOf(GA306{}),
	tOf(GA307{}),
	tOf(GA308{}),
	tOf(GA309{}),
	tOf(GA310{}),
	tOf(gA311{}),
	tOf(GA312{}),
	tOf(gA313{}),
	tOf(gA314{}),
	tOf(GA315{}),
	tOf(gA316{}),
	tOf(gA317{}),
	tOf(GA318{}),
	tOf(GA319{}),
	tOf(GA320{}),
	tOf(gA321{}),
	tOf(GA322{}),
	tOf(GA323{}),
	tOf(GA324{}),
	tOf(gA325{}),
	tOf(GA326{}),
	tOf(gA327{}),
	tOf(GA328{}),
	tOf(GA329{}),
	tOf(GA330{}),
	tOf(gA331{}),
	tOf(gA332{}),
	tOf(GA333{}),
	tOf(gA334{}),
	tOf(GA335{}),
	tOf(GA336{}),
	tOf(GA337{}),
	tOf(gA338{}),
	tOf(GA339{}),
	tOf(gA340{}),
	tOf(GA341{}),
	tOf(gA342{}),
	tOf(gA343{}),
	tOf(gA344{}),
	tOf(gA345{}),
	tOf(GA346{}),
	tOf(gA347{}),
	tOf(GA348{}),
	tOf(GA349{}),
	tOf(gA350{}),
	tOf(GA351{}),
	tOf(GA352{}),
	tOf(gA353{}),
	tOf(GA354{}),
	tOf(GA355{}),
	tOf(GA356{}),
	tOf(gA357{}),
	tOf(gA358{}),
	tOf(GA359{}),
	tOf(GA360{}),
	tOf(GA361{}),
	tOf(GA362{}),
	tOf(gA363{}),
	tOf(gA364{}),
	tOf(GA365{}),
	tOf(GA366{}),
	tOf(GA367{}),
	tOf(GA368{}),
	tOf(gA369{}),
	tOf(GA370{}),
	tOf(GA371{}),
	tOf(gA372{}),
	tOf(GA373{}),
	tOf(GA374{}),
	tOf(gA375{}),
	tOf(GA376{}),
	tOf(GA377{}),
	tOf(GA378{}),
	tOf(gA379{}),
	tOf(gA380{}),
	tOf(GA381{}),
	tOf(GA382{}),
	tOf(GA383{}),
	tOf(GA384{}),
	tOf(gA385{}),
	tOf(GA386{}),
	tOf(GA387{}),
	tOf(GA388{}),
	tOf(GA389{}),
	tOf(gA390{}),
	tOf(GA391{}),
	tOf(GA392{}),
	tOf(GA393{}),
	tOf(GA394{}),
	tOf(gA395{}),
	tOf(GA396{}),
	tOf(gA397{}),
	tOf(GA398{}),
	tOf(GA399{}),
	tOf(gA400{}),
	tOf(GA401{}),
	tOf(GA402{}),
	tOf(gA403{}),
	tOf(GA404{}),
	tOf(GA405{}),
	tOf(GA406{}),
	tOf(gA407{}),
	tOf(GA408{}),
	tOf(gA409{}),
	tOf(GA410{}),
	tOf(gA411{}),
	tOf(gA412{}),
	tOf(gA413{}),
	tOf(GA414{}),
	tOf(GA415{}),
	tOf(GA416{}),
	tOf(GA417{}),
	tOf(gA418{}),
	tOf(GA419{}),
	tOf(GA420{}),
	tOf(gA421{}),
	tOf(GA422{}),
	tOf(gA423{}),
	tOf(GA424{}),
	tOf(GA425{}),
	tOf(GA426{}),
	tOf(gA427{}),
	tOf(gA428{}),
	tOf(gA429{}),
	tOf(GA430{}),
	tOf(GA431{}),
	tOf(gA432{}),
	tOf(GA433{}),
	tOf(GA434{}),
	tOf(GA435{}),
	tOf(GA436{}),
	tOf(GA437{}),
	tOf(GA438{}),
	tOf(GA439{}),
	tOf(GA440{}),
	tOf(gA441{}),
	tOf(gA442{}),
	tOf(GA443{}),
	tOf(GA444{}),
	tOf(gA445{}),
	tOf(GA446{}),
	tOf(GA447{}),
	tOf(GA448{}),
	tOf(GA449{}),
	tOf(GA450{}),
	tOf(GA451{}),
	tOf(GA452{}),
	tOf(GA453{}),
	tOf(gA454{}),
	tOf(GA455{}),
	tOf(GA456{}),
	tOf(GA457{}),
	tOf(gA458{}),
	tOf(GA459{}),
	tOf(GA460{}),
	tOf(GA461{}),
	tOf(GA462{}),
	tOf(GA463{}),
	tOf(gA464{}),
	tOf(GA465{}),
	tOf(GA466{}),
	tOf(gA467{}),
	tOf(GA468{}),
	tOf(gA469{}),
	tOf(GA470{}),
	tOf(GA471{}),
	tOf(GA472{}),
	tOf(GA473{}),
	tOf(GA474{}),
	tOf(gA475{}),
	tOf(GA476{}),
	tOf(GA477{}),
	tOf(GA478{}),
	tOf(GA479{}),
	tOf(gA480{}),
	tOf(gA481{}),
	tOf(gA482{}),
	tOf(GA483{}),
	tOf(GA484{}),
	tOf(gA485{}),
	tOf(GA486{}),
	tOf(GA487{}),
	tOf(GA488{}),
	tOf(gA489{}),
	tOf(gA490{}),
	tOf(GA491{}),
	tOf(GA492{}),
	tOf(GA493{}),
	tOf(gA494{}),
	tOf(GA495{}),
	tOf(gA496{}),
	tOf(GA497{}),
	tOf(GA498{}),
	tOf(gA499{}),
	tOf(GA500{}),
	tOf(GA501{}),
	tOf(gA502{}),
	tOf(GA503{}),
	tOf(gA504{}),
	tOf(GA505{}),
	tOf(GA506{}),
	tOf(gA507{}),
	tOf(GA508{}),
	tOf(GA509{}),
	tOf(GA510{}),
	tOf(GA511{}),
	tOf(GA512{}),
	tOf(GA513{}),
	tOf(GA514{}),
	tOf(gA515{}),
	tOf(GA516{}),
	tOf(GA517{}),
	tOf(gA518{}),
	tOf(GA519{}),
	tOf(GA520{}),
	tOf(GA521{}),
	tOf(gA522{}),
	tOf(gA523{}),
	tOf(GA524{}),
	tOf(GA525{}),
	tOf(gA526{}),
	tOf(gA527{}),
	tOf(GA528{}),
	tOf(gA529{}),
	tOf(GA530{}),
	tOf(gA531{}),
	tOf(gA532{}),
	tOf(GA533{}),
	tOf(gA534{}),
	tOf(GA535{}),
	tOf(GA536{}),
	tOf(GA537{}),
	tOf(GA538{}),
	tOf(GA539{}),
	tOf(GA540{}),
	tOf(GA541{}),
	tOf(GA542{}),
	tOf(GA543{}),
}

var gsOnly = []reflect.Type{
	tOf(GO0{}),
	tOf(GO1{}),
	tOf(gO2{}),
	tOf(GO3{}),
	tOf(gO4{}),
	tOf(gO5{}),
	tOf(gO6{}),
	tOf(gO7{}),
	tOf(gO8{}),
	tOf(GO9{}),
	tOf(GO10{}),
	tOf(gO11{}),
	tOf(gO12{}),
	tOf(GO13{}),
	tOf(GO14{}),
	tOf(GO15{}),
	tOf(GO16{}),
	tOf(gO17{}),
	tOf(gO18{}),
	tOf(GO19{}),
	tOf(GO20{}),
	tOf(GO21{}),
	tOf(GO22{}),
	tOf(gO23{}),
	tOf(GO24{}),
	tOf(GO25{}),
	tOf(gO26{}),
	tOf(GO27{}),
	tOf(GO28{}),
	tOf(gO29{}),
	tOf(gO30{}),
	tOf(gO31{}),
	tOf(GO32{}),
	tOf(gO33{}),
	tOf(gO34{}),
	tOf(GO35{}),
	tOf(GO36{}),
	tOf(GO37{}),
	tOf(GO38{}),
	tOf(gO39{}),
	tOf(GO40{}),
	tOf(gO41{}),
	tOf(GO42{}),
	tOf(GO43{}),
	tOf(GO44{}),
	tOf(GO45{}),
	tOf(gO46{}),
	tOf(GO47{}),
	tOf(gO48{}),
	tOf(GO49{}),
	tOf(GO50{}),
	tOf(GO51{}),
	tOf(GO52{}),
	tOf(GO53{}),
	tOf(gO54{}),
	tOf(gO55{}),
	tOf(GO56{}),
	tOf(GO57{}),
	tOf(gO58{}),
	tOf(gO59{}),
	tOf(gO60{}),
	tOf(gO61{}),
	tOf(gO62{}),
	tOf(GO63{}),
	tOf(gO64{}),
	tOf(GO65{}),
	tOf(GO66{}),
	tOf(GO67{}),
	tOf(gO68{}),
	tOf(GO69{}),
	tOf(gO70{}),
	tOf(GO71{}),
	tOf(GO72{}),
	tOf(gO73{}),
	tOf(gO74{}),
	tOf(gO75{}),
	tOf(GO76{}),
	tOf(GO77{}),
	tOf(GO78{}),
	tOf(GO79{}),
	tOf(GO80{}),
	tOf(GO81{}),
	tOf(GO82{}),
	tOf(GO83{}),
	tOf(gO84{}),
	tOf(GO85{}),
	tOf(GO86{}),
	tOf(gO87{}),
	tOf(gO88{}),
	tOf(GO89{}),
	tOf(GO90{}),
	tOf(gO91{}),
	tOf(GO92{}),
	tOf(GO93{}),
	tOf(GO94{}),
	tOf(gO95{}),
	tOf(gO96{}),
	tOf(GO97{}),
	tOf(GO98{}),
	tOf(GO99{}),
	tOf(GO100{}),
	tOf(GO101{}),
	tOf(GO102{}),
	tOf(GO103{}),
	tOf(GO104{}),
	tOf(gO105{}),
	tOf(GO106{}),
	tOf(GO107{}),
	tOf(GO108{}),
	tOf(gO109{}),
	tOf(GO110{}),
	tOf(gO111{}),
	tOf(gO112{}),
	tOf(gO113{}),
	tOf(GO114{}),
	tOf(gO115{}),
	tOf(gO116{}),
	tOf(GO117{}),
	tOf(gO118{}),
	tOf(GO119{}),
	tOf(gO120{}),
	tOf(GO121{}),
	tOf(GO122{}),
	tOf(GO123{}),
	tOf(GO124{}),
	tOf(GO125{}),
	tOf(GO126{}),
	tOf(gO127{}),
	tOf(GO128{}),
	tOf(gO129{}),
	tOf(gO130{}),
	tOf(GO131{}),
	tOf(gO132{}),
	tOf(GO133{}),
	tOf(gO134{}),
	tOf(GO135{}),
	tOf(GO136{}),
	tOf(gO137{}),
	tOf(GO138{}),
	tOf(GO139{}),
	tOf(gO140{}),
	tOf(GO141{}),
	tOf(GO142{}),
	tOf(gO143{}),
	tOf(GO144{}),
	tOf(GO145{}),
	tOf(GO146{}),
	tOf(GO147{}),
	tOf(gO148{}),
	tOf(GO149{}),
	tOf(GO150{}),
	tOf(gO151{}),
	tOf(gO152{}),
	tOf(GO153{}),
	tOf(GO154{}),
	tOf(gO155{}),
	tOf(gO156{}),
	tOf(GO157{}),
	tOf(gO158{}),
	tOf(GO159{}),
	tOf(GO160{}),
	tOf(GO161{}),
	tOf(gO162{}),
	tOf(GO163{}),
	tOf(GO164{}),
	tOf(GO165{}),
	tOf(GO166{}),
	tOf(gO167{}),
	tOf(gO168{}),
	tOf(GO169{}),
	tOf(gO170{}),
	tOf(GO171{}),
	tOf(gO172{}),
	tOf(GO173{}),
	tOf(GO174{}),
	tOf(gO175{}),
	tOf(GO176{}),
	tOf(GO177{}),
	tOf(gO178{}),
	tOf(GO179{}),
	tOf(gO180{}),
	tOf(GO181{}),
	tOf(gO182{}),
	tOf(GO183{}),
	tOf(GO184{}),
	tOf(GO185{}),
	tOf(gO186{}),
	tOf(GO187{}),
	tOf(GO188{}),
	tOf(gO189{}),
	tOf(GO190{}),
	tOf(GO191{}),
	tOf(GO192{}),
	tOf(gO193{}),
	tOf(GO194{}),
	tOf(gO195{}),
	tOf(GO196{}),
	tOf(GO197{}),
	tOf(gO198{}),
	tOf(gO199{}),
	tOf(GO200{}),
	tOf(gO201{}),
	tOf(GO202{}),
	tOf(GO203{}),
	tOf(GO204{}),
	tOf(gO205{}),
	tOf(gO206{}),
	tOf(GO207{}),
	tOf(GO208{}),
	tOf(GO209{}),
	tOf(gO210{}),
	tOf(GO211{}),
	tOf(GO212{}),
	tOf(GO213{}),
	tOf(gO214{}),
	tOf(GO215{}),
	tOf(GO216{}),
	tOf(GO217{}),
	tOf(GO218{}),
	tOf(gO219{}),
	tOf(GO220{}),
	tOf(gO221{}),
	tOf(GO222{}),
	tOf(GO223{}),
	tOf(GO224{}),
	tOf(gO225{}),
	tOf(gO226{}),
	tOf(GO227{}),
	tOf(GO228{}),
	tOf(gO229{}),
	tOf(gO230{}),
	tOf(GO231{}),
	tOf(gO232{}),
	tOf(gO233{}),
	tOf(GO234{}),
	tOf(gO235{}),
	tOf(GO236{}),
	tOf(GO237{}),
	tOf(GO238{}),
	tOf(gO239{}),
	tOf(GO240{}),
	tOf(GO241{}),
	tOf(GO242{}),
	tOf(GO243{}),
	tOf(gO244{}),
	tOf(GO245{}),
	tOf(GO246{}),
	tOf(GO247{}),
	tOf(GO248{}),
	tOf(GO249{}),
	tOf(GO250{}),
	tOf(GO251{}),
	tOf(GO252{}),
	tOf(gO253{}),
	tOf(gO254{}),
	tOf(GO255{}),
	tOf(gO256{}),
	tOf(gO257{}),
	tOf(gO258{}),
	tOf(gO259{}),
	tOf(gO260{}),
	tOf(gO261{}),
	tOf(GO262{}),
	tOf(GO263{}),
	tOf(GO264{}),
	tOf(GO265{}),
	tOf(GO266{}),
	tOf(GO267{}),
	tOf(GO268{}),
	tOf(GO269{}),
	tOf(gO270{}),
	tOf(GO271{}),
	tOf(gO272{}),
	tOf(GO273{}),
	tOf(GO274{}),
	tOf(gO275{}),
	tOf(GO276{}),
	tOf(GO277{}),
	tOf(GO278{}),
	tOf(GO279{}),
	tOf(gO280{}),
	tOf(gO281{}),
	tOf(GO282{}),
	tOf(GO283{}),
	tOf(gO284{}),
	tOf(gO285{}),
	tOf(GO286{}),
	tOf(GO287{}),
	tOf(GO288{}),
	tOf(GO289{}),
	tOf(gO290{}),
	tOf(GO291{}),
	tOf(GO292{}),
	tOf(GO293{}),
	tOf(gO294{}),
	tOf(gO295{}),
	tOf(GO296{}),
	tOf(GO297{}),
	tOf(gO298{}),
	tOf(GO299{}),
	tOf(gO300{}),
	tOf(gO301{}),
	tOf(GO302{}),
	tOf(GO303{}),
	tOf(gO304{}),
	tOf(GO305{}),
	tOf(GO306{}),
	tOf(GO307{}),
	tOf(GO308{}),
	tOf(GO309{}),
	tOf(GO310{}),
	tOf(gO311{}),
	tOf(GO312{}),
	tOf(gO313{}),
	tOf(gO314{}),
	tOf(GO315{}),
	tOf(gO316{}),
	tOf(gO317{}),
	tOf(GO318{}),
	tOf(GO319{}),
	tOf(GO320{}),
	tOf(gO321{}),
	tOf(GO322{}),
	tOf(GO323{}),
	tOf(GO324{}),
	tOf(gO325{}),
	tOf(GO326{}),
	tOf(gO327{}),
	tOf(GO328{}),
	tOf(GO329{}),
	tOf(GO330{}),
	tOf(gO331{}),
	tOf(gO332{}),
	tOf(GO333{}),
	tOf(gO334{}),
	tOf(GO335{}),
	tOf(GO336{}),
	tOf(GO337{}),
	tOf(gO338{}),
	tOf(GO339{}),
	tOf(gO340{}),
	tOf(GO341{}),
	tOf(gO342{}),
	tOf(gO343{}),
	tOf(gO344{}),
	tOf(gO345{}),
	tOf(GO346{}),
	tOf(gO347{}),
	tOf(GO348{}),
	tOf(GO349{}),
	tOf(gO350{}),
	tOf(GO351{}),
	tOf(GO352{}),
	tOf(gO353{}),
	tOf(GO354{}),
	tOf(GO355{}),
	tOf(GO356{}),
	tOf(gO357{}),
	tOf(gO358{}),
	tOf(GO359{}),
	tOf(GO360{}),
	tOf(GO361{}),
	tOf(GO362{}),
	tOf(gO363{}),
	tOf(gO364{}),
	tOf(GO365{}),
	tOf(GO366{}),
	tOf(GO367{}),
	tOf(GO368{}),
	tOf(gO369{}),
	tOf(GO370{}),
	tOf(GO371{}),
	tOf(gO372{}),
	tOf(GO373{}),
	tOf(GO374{}),
	tOf(gO375{}),
	tOf(GO376{}),
	tOf(GO377{}),
	tOf(GO378{}),
	tOf(gO379{}),
	tOf(gO380{}),
	tOf(GO381{}),
	tOf(GO382{}),
	tOf(GO383{}),
	tOf(GO384{}),
	tOf(gO385{}),
	tOf(GO386{}),
	tOf(GO387{}),
	tOf(GO388{}),
	tOf(GO389{}),
	tOf(gO390{}),
	tOf(GO391{}),
	tOf(GO392{}),
	tOf(GO393{}),
	tOf(GO394{}),
	tOf(gO395{}),
	tOf(GO396{}),
	tOf(gO397{}),
	tOf(GO398{}),
	tOf(GO399{}),
	tOf(gO400{}),
	tOf(GO401{}),
	tOf(GO402{}),
	tOf(gO403{}),
	tOf(GO404{}),
	tOf(GO405{}),
	tOf(GO406{}),
	tOf(gO407{}),
	tOf(GO408{}),
	tOf(gO409{}),
	tOf(GO410{}),
	tOf(gO411{}),
	tOf(gO412{}),
	tOf(gO413{}),
	tOf(GO414{}),
	tOf(GO415{}),
	tOf(GO416{}),
	tOf(GO417{}),
	tOf(gO418{}),
	tOf(GO419{}),
	tOf(GO420{}),
	tOf(gO421{}),
	tOf(GO422{}),
	tOf(gO423{}),
	tOf(GO424{}),
	tOf(GO425{}),
	tOf(GO426{}),
	tOf(gO427{}),
	tOf(gO428{}),
	tOf(gO429{}),
	tOf(GO430{}),
	tOf(GO431{}),
	tOf(gO432{}),
	tOf(GO433{}),
	tOf(GO434{}),
	tOf(GO435{}),
	tOf(GO436{}),
	tOf(GO437{}),
	tOf(GO438{}),
	tOf(GO439{}),
	tOf(GO440{}),
	tOf(gO441{}),
	tOf(gO442{}),
	tOf(GO443{}),
	tOf(GO444{}),
	tOf(gO445{}),
	tOf(GO446{}),
	tOf(GO447{}),
	tOf(GO448{}),
	tOf(GO449{}),
	tOf(GO450{}),
	tOf(GO451{}),
	tOf(GO452{}),
	tOf(GO453{}),
	tOf(gO454{}),
	tOf(GO455{}),
	tOf(GO456{}),
	tOf(GO457{}),
	tOf(gO458{}),
	tOf(GO459{}),
	tOf(GO460{}),
	tOf(GO461{}),
	tOf(GO462{}),
	tOf(GO463{}),
	tOf(gO464{}),
	tOf(GO465{}),
	tOf(GO466{}),
	tOf(gO467{}),
	tOf(GO468{}),
	tOf(gO469{}),
	tOf(GO470{}),
	tOf(GO471{}),
	tOf(GO472{}),
	tOf(GO473{}),
	tOf(GO474{}),
	tOf(gO475{}),
	tOf(GO476{}),
	tOf(GO477{}),
	tOf(GO478{}),
	tOf(GO479{}),
	tOf(gO480{}),
	tOf(gO481{}),
	tOf(gO482{}),
	tOf(GO483{}),
	tOf(GO484{}),
	tOf(gO485{}),
	tOf(GO486{}),
	tOf(GO487{}),
	tOf(GO488{}),
	tOf(gO489{}),
	tOf(gO490{}),
	tOf(GO491{}),
	tOf(GO492{}),
	tOf(GO493{}),
	tOf(gO494{}),
	tOf(GO495{}),
	tOf(gO496{}),
	tOf(GO497{}),
	tOf(GO498{}),
	tOf(gO499{}),
	tOf(GO500{}),
	tOf(GO501{}),
	tOf(gO502{}),
	tOf(GO503{}),
	tOf(gO504{}),
	tOf(GO505{}),
	tOf(GO506{}),
	tOf(gO507{}),
	tOf(GO508{}),
	tOf(GO509{}),
	tOf(GO510{}),
	tOf(GO511{}),
	tOf(GO512{}),
	tOf(GO513{}),
	tOf(GO514{}),
	tOf(gO515{}),
	tOf(GO516{}),
	tOf(GO517{}),
	tOf(gO518{}),
	tOf(GO519{}),
	tOf(GO520{}),
	tOf(GO521{}),
	tOf(gO522{}),
	tOf(gO523{}),
	tOf(GO524{}),
	tOf(GO525{}),
	tOf(gO526{}),
	tOf(gO527{}),
	tOf(GO528{}),
	tOf(gO529{}),
	tOf(GO530{}),
	tOf(gO531{}),
	tOf(gO532{}),
	tOf(GO533{}),
	tOf(gO534{}),
	tOf(GO535{}),
	tOf(GO536{}),
	tOf(GO537{}),
	tOf(GO538{}),
	tOf(GO539{}),
	tOf(GO540{}),
	tOf(GO541{}),
	tOf(GO542{}),
	tOf(GO543{}),
}
