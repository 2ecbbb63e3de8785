package harness

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- more types with representations
// As in types.go: the default value is the one with the default representation,
// and the wire type is the same.

type RBool bool

func (r RBool) MarshalAmino() (bool, error)  { return bool(r), nil }
func (r *RBool) UnmarshalAmino(x bool) error { *r = RBool(x); return nil }

// RI8 is kept negated.
type RI8 int8

func (r RI8) MarshalAmino() (int8, error)  { return int8(-r), nil }
func (r *RI8) UnmarshalAmino(x int8) error { *r = RI8(-x); return nil }

type RU16 uint16

func (r RU16) MarshalAmino() (uint16, error)  { return uint16(r<<8 | r>>8), nil }
func (r *RU16) UnmarshalAmino(x uint16) error { *r = RU16(x<<8 | x>>8); return nil }

// RHex: bytes represented by text.
type RHex []byte

func (r RHex) MarshalAmino() (string, error) { return fmt.Sprintf("%x", []byte(r)), nil }
func (r *RHex) UnmarshalAmino(s string) (err error) {
	*r, err = hex.DecodeString(s)
	return
}

// ROuter is represented by a struct that holds types with representations.
type ROuter struct {
	p *RInt
	l []RStruct
	s RStr
	n []*RStruct
}
type ROuterRepr struct {
	P *RInt
	L []RStruct
	S RStr
	N []*RStruct `amino:"empty_elements"`
}

func (r ROuter) MarshalAmino() (ROuterRepr, error) { return ROuterRepr{r.p, r.l, r.s, r.n}, nil }
func (r *ROuter) UnmarshalAmino(x ROuterRepr) error {
	*r = ROuter{x.P, x.L, x.S, x.N}
	return nil
}

// RNest3 takes three steps: RNest3 -> RNest -> RInt -> int64.
type RNest3 struct{ v int64 }
type RNest3Repr struct {
	V RNest
	W []RNest
}

func (r RNest3) MarshalAmino() (RNest3Repr, error) {
	if r.v == 0 {
		return RNest3Repr{}, nil
	}
	return RNest3Repr{RNest(r.v), []RNest{RNest(r.v), 0, RNest(^r.v)}}, nil
}
func (r *RNest3) UnmarshalAmino(x RNest3Repr) error {
	if x.V != 0 && (len(x.W) != 3 || x.W[0] != x.V || x.W[1] != 0 || x.W[2] != ^x.V) {
		return errRepr
	}
	r.v = int64(x.V)
	return nil
}

// RStructs: a list of structs by another list of structs.
type RStructs []CSmall

func (r RStructs) MarshalAmino() ([]Leaf, error) {
	var o []Leaf
	for _, x := range r {
		o = append(o, Leaf{N: int64(x.N)})
	}
	return o, nil
}
func (r *RStructs) UnmarshalAmino(x []Leaf) error {
	*r = nil
	for _, l := range x {
		if l.By != nil {
			return errRepr
		}
		*r = append(*r, CSmall{int8(l.N)})
	}
	return nil
}

// RPtr keeps a struct behind a pointer.
type RPtr struct{ p *int32 }
type RPtrRepr struct{ P *int32 }

func (r RPtr) MarshalAmino() (RPtrRepr, error)  { return RPtrRepr{r.p}, nil }
func (r *RPtr) UnmarshalAmino(x RPtrRepr) error { r.p = x.P; return nil }

// RTwo takes two steps, both through structs, with other fields at each.
type RTwo struct{ a, b int64 }
type RTwoMid struct {
	C *CSmall // never written
	S int64
	D int64
}
type RTwoRepr struct {
	Hi uint32
	Lo uint32
	D  []int64
}

func (r RTwo) MarshalAmino() (RTwoMid, error) { return RTwoMid{S: r.a, D: r.b}, nil }
func (r *RTwo) UnmarshalAmino(x RTwoMid) error {
	if x.C != nil {
		return errRepr
	}
	*r = RTwo{x.S, x.D}
	return nil
}

func (r RTwoMid) MarshalAmino() (RTwoRepr, error) {
	x := RTwoRepr{Hi: uint32(uint64(r.S) >> 32), Lo: uint32(r.S)}
	if r.D != 0 {
		x.D = []int64{r.D}
	}
	return x, nil
}
func (r *RTwoMid) UnmarshalAmino(x RTwoRepr) error {
	*r = RTwoMid{S: int64(uint64(x.Hi)<<32 | uint64(x.Lo))}
	if len(x.D) > 0 {
		r.D = x.D[0]
	}
	return nil
}

// RWant isn't valid when empty, though it encodes.
type RWant struct{ v int64 }
type RWantRepr struct{ V int64 }

func (r RWant) MarshalAmino() (RWantRepr, error) { return RWantRepr{r.v}, nil }
func (r *RWant) UnmarshalAmino(x RWantRepr) error {
	if x.V == 0 {
		atomic.AddInt64(&wantErrors, 1)
		return errRepr
	}
	r.v = x.V
	return nil
}

var wantErrors int64 // errors returned

// RWantTwo is a step further.
type RWantTwo struct{ v int64 }

func (r RWantTwo) MarshalAmino() (RWant, error)  { return RWant{r.v}, nil }
func (r *RWantTwo) UnmarshalAmino(x RWant) error { r.v = x.v; return nil }

// ROmit is represented by a struct with fields that may be missing.
type ROmit struct {
	a int64
	b string
	l []int16
	p *int8
}
type ROmitRepr struct {
	A int64   `json:",omitempty"`
	B string  `json:"b,omitempty"`
	L []int16 `json:"l,omitempty"`
	P *int8   `json:",omitempty"`
}

func (r ROmit) MarshalAmino() (ROmitRepr, error)  { return ROmitRepr{r.a, r.b, r.l, r.p}, nil }
func (r *ROmit) UnmarshalAmino(x ROmitRepr) error { *r = ROmit{x.A, x.B, x.L, x.P}; return nil }

// ROmit2 is two steps from it.
type ROmit2 struct{ x ROmit }
type ROmit2Repr struct {
	N int8
	X ROmit `json:",omitempty"`
}

func (r ROmit2) MarshalAmino() (ROmit2Repr, error)  { return ROmit2Repr{int8(r.x.a), r.x}, nil }
func (r *ROmit2) UnmarshalAmino(x ROmit2Repr) error { *r = ROmit2{x.X}; return nil }

// Numbers to which the options of their field apply.
type (
	RFix64 uint64
	RFix32 int32
	RFloat float64
	RFlo32 float32
)

func (r RFix64) MarshalAmino() (uint64, error)   { return uint64(-r), nil }
func (r *RFix64) UnmarshalAmino(v uint64) error  { *r = RFix64(-v); return nil }
func (r RFix32) MarshalAmino() (int32, error)    { return int32(-r), nil }
func (r *RFix32) UnmarshalAmino(v int32) error   { *r = RFix32(-v); return nil }
func (r RFloat) MarshalAmino() (float64, error)  { return float64(flip(float64(r))), nil }
func (r *RFloat) UnmarshalAmino(v float64) error { *r = RFloat(flip(v)); return nil }
func (r RFlo32) MarshalAmino() (float32, error)  { return float32(flip(float64(r))), nil }
func (r *RFlo32) UnmarshalAmino(v float32) error { *r = RFlo32(flip(float64(v))); return nil }

// flip keeps 0 as it is.
func flip(f float64) float64 {
	if f == 0 {
		return f
	}
	return -f
}

// optionTag is the tag that the leaf may have, or must have.
func optionTag(leaf reflect.Type) (tag string, must bool) {
	switch leaf {
	case tof(RFix64(0)), tof(RInt(0)):
		return `binary:"fixed64"`, false
	case tof(RFix32(0)):
		return `binary:"fixed32"`, false
	case tof(RFloat(0)), tof(RFlo32(0)):
		return `amino:"unsafe"`, true
	}
	return "", false
}

var customTypes = []reflect.Type{tof(RFix64(0)), tof(RFix32(0)), tof(RFloat(0)), tof(RFlo32(0)), tof(RInt(0)), tof(RStr("")), tof(RBytes{}), tof(RStruct{}), tof(RNest(0)), tof(RArr{}), tof(RList{}),
	tof(RBool(false)), tof(RI8(0)), tof(RU16(0)), tof(ROuter{}), tof(RNest3{}), tof(RStructs{}), tof(RPtr{}), tof(RHex{}), tof(CRepr{}), tof(RTwo{}), tof(RTwoMid{}), tof(ROmit{}), tof(ROmit2{})}

func reprType(rt reflect.Type) reflect.Type {
	m, _ := rt.MethodByName("MarshalAmino")
	return m.Type.Out(0)
}

// drawCustom draws a value of a custom type.
func drawCustom(t *rapid.T, rt reflect.Type) reflect.Value {
	rv := reflect.New(rt).Elem()
	if pick(t, 4, "zero") == 0 {
		return rv
	}
	switch rt {
	case tof(ROuter{}):
		var r ROuter
		if pick(t, 2, "p") == 1 {
			x := RInt(drawInt(t, 64))
			r.p = &x
		}
		for i, n := 0, pick(t, 3, "l"); i < n; i++ {
			r.l = append(r.l, drawCustom(t, tof(RStruct{})).Interface().(RStruct))
			x := drawCustom(t, tof(RStruct{})).Interface().(RStruct)
			r.n = append(r.n, &x)
		}
		r.s = RStr(drawString(t, true))
		rv.Set(reflect.ValueOf(r))
	case tof(RNest3{}):
		rv.Set(reflect.ValueOf(RNest3{drawInt(t, 64)}))
	case tof(RTwo{}):
		rv.Set(reflect.ValueOf(RTwo{drawInt(t, 64), drawInt(t, 64)}))
	case tof(RTwoMid{}):
		rv.Set(reflect.ValueOf(RTwoMid{S: drawInt(t, 64), D: drawInt(t, 64)}))
	case tof(ROmit{}):
		rv.Set(reflect.ValueOf(drawROmit(t)))
	case tof(ROmit2{}):
		rv.Set(reflect.ValueOf(ROmit2{drawROmit(t)}))
	case tof(RPtr{}):
		x := int32(drawInt(t, 32))
		rv.Set(reflect.ValueOf(RPtr{&x}))
	case tof(RStructs{}):
		var r RStructs
		for i, n := 0, pick(t, 4, "n"); i < n; i++ {
			r = append(r, CSmall{int8(drawInt(t, 8))})
		}
		rv.Set(reflect.ValueOf(r))
	default:
		fillValue(t, rv, newV(emptyWorld(), true))
		if rt == tof(RHex{}) && rv.Len() == 0 {
			rv.Set(reflect.Zero(rt)) // the zero value, as "" is
		}
	}
	return rv
}

func drawROmit(t *rapid.T) (r ROmit) {
	if pick(t, 2, "a") == 1 {
		r.a = drawInt(t, 64)
	}
	if pick(t, 2, "b") == 1 {
		r.b = drawString(t, true)
	}
	for i, n := 0, pick(t, 3, "l"); i < n; i++ {
		r.l = append(r.l, int16(drawInt(t, 16)))
	}
	if pick(t, 2, "p") == 1 {
		p := int8(pickFrom(t, []int8{1, -1, 100}, "pv"))
		r.p = &p
	}
	return
}

// ---------------------------------------------------------------- positions

// drawPos draws a type that holds leaf somewhere.
func drawPos(t *rapid.T, leaf reflect.Type, json, iface bool) reflect.Type {
	listy := isListKind(leaf) && leaf.Elem().Kind() != reflect.Uint8
	if r, ok := leaf.MethodByName("MarshalAmino"); ok {
		o := r.Type.Out(0)
		listy = listy || isListKind(o) && o.Elem().Kind() != reflect.Uint8
	}
	rt := leaf
	opt, need := optionTag(leaf)
	var must reflect.StructTag
	if need {
		must = reflect.StructTag(opt)
	}
	lists := 0 // lists directly around each other
	if listy {
		lists = 1
	}
	field := func() {
		var fs []reflect.StructField
		if pick(t, 2, "before") == 1 {
			fs = append(fs, reflect.StructField{Name: "B", Type: pickFrom(t, []reflect.Type{tof(int8(0)), tof([]string{}), leaf}, "bt"), Tag: must})
		}
		f := reflect.StructField{Name: "X", Type: rt}
		switch pick(t, 6, "tag") {
		case 4:
			f.Tag = `json:"x,omitempty"`
		case 5:
			f.Tag = `amino:"write_empty"`
			if rt.Kind() == reflect.Ptr || rt.Kind() == reflect.Interface {
				f.Tag = ""
			}
		}
		if opt != "" && (must != "" || pick(t, 2, "option") == 1) {
			f.Tag = reflect.StructTag(opt) + " " + f.Tag
			if f.Tag.Get("amino") == "unsafe" && strings.Contains(string(f.Tag), "write_empty") {
				f.Tag = `amino:"unsafe,write_empty"`
			}
		}
		fs = append(fs, f)
		if pick(t, 2, "after") == 1 {
			fs = append(fs, reflect.StructField{Name: "Z", Type: pickFrom(t, []reflect.Type{tof(""), leaf, tof([]Leaf{})}, "at"), Tag: must})
		}
		rt = reflect.StructOf(fs)
		lists = 0
	}
	if iface {
		rt = anyType
		field()
	}
	for i, n := 0, pick(t, 4, "steps"); i < n; i++ {
		switch pick(t, 7, "step") {
		case 0, 1:
			field()
		case 2:
			if lists == 0 || json { // pointers to lists in lists aren't told apart from nil
				rt = reflect.PtrTo(rt)
			}
		case 3:
			if lists < 2 && !isByteBottomNamed(rt) {
				rt, lists = reflect.SliceOf(rt), lists+1
			}
		case 4:
			if lists < 2 && !isByteBottomNamed(rt) {
				rt, lists = reflect.ArrayOf(1+pick(t, 2, "alen"), rt), lists+1
			}
		case 5:
			if json {
				rt = reflect.MapOf(tof(""), rt)
			}
		default:
			field()
		}
		if lists == 2 {
			field()
		}
	}
	if lists > 1 || rt.Kind() == reflect.Interface || must != "" {
		field()
	}
	return rt
}

// Lists of one-byte numbers are byte strings whatever the element type is.
func isByteBottomNamed(rt reflect.Type) bool { return rt.Kind() == reflect.Uint8 }

// fillPos fills a value of a type drawn by drawPos. Interfaces get values of conc.
func fillPos(t *rapid.T, rv reflect.Value, leaf reflect.Type, conc reflect.Type, leafVal func() reflect.Value) {
	if rv.Type() == leaf {
		rv.Set(leafVal())
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if pick(t, 5, "nil") == 0 {
			return
		}
		rv.Set(reflect.New(rv.Type().Elem()))
		fillPos(t, rv.Elem(), leaf, conc, leafVal)
	case reflect.Slice:
		if rv.Type().Name() != "" || rv.Type() == tof([]Leaf{}) || rv.Type() == tof([]string{}) {
			fillValue(t, rv, newV(emptyWorld(), true))
			return
		}
		n := pick(t, 4, "n")
		s := reflect.MakeSlice(rv.Type(), n, n)
		for i := 0; i < n; i++ {
			fillPos(t, s.Index(i), leaf, conc, leafVal)
		}
		rv.Set(s)
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			fillPos(t, rv.Index(i), leaf, conc, leafVal)
		}
	case reflect.Map:
		m := reflect.MakeMap(rv.Type())
		if pick(t, 3, "map") > 0 {
			x := reflect.New(rv.Type().Elem()).Elem()
			fillPos(t, x, leaf, conc, leafVal)
			m.SetMapIndex(reflect.ValueOf("k"), x)
		}
		rv.Set(m)
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			fillPos(t, rv.Field(i), leaf, conc, leafVal)
		}
	case reflect.Interface:
		if pick(t, 6, "nilif") == 0 {
			return
		}
		x := reflect.New(leaf)
		x.Elem().Set(leafVal())
		if conc.Kind() == reflect.Ptr {
			rv.Set(x)
		} else {
			rv.Set(x.Elem())
		}
	default:
		fillValue(t, rv, newV(emptyWorld(), true))
	}
}

// toRepr converts a value that holds custom values to one that holds their
// representations, by calling MarshalAmino.
func toRepr(src, dst reflect.Value, leaf reflect.Type) {
	if src.Type() == leaf {
		out := src.MethodByName("MarshalAmino").Call(nil)
		if !out[1].IsNil() {
			panic(out[1].Interface())
		}
		dst.Set(out[0])
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			toRepr(src.Elem(), dst.Elem(), leaf)
		}
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		v := src.Elem()
		if v.Kind() == reflect.Ptr && v.Type().Elem() == leaf {
			x := reflect.New(reprType(leaf))
			toRepr(v.Elem(), x.Elem(), leaf)
			dst.Set(x)
		} else if v.Type() == leaf {
			x := reflect.New(reprType(leaf)).Elem()
			toRepr(v, x, leaf)
			dst.Set(x)
		} else {
			dst.Set(src)
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			toRepr(src.Index(i), dst.Index(i), leaf)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeMap(dst.Type()))
		for _, k := range src.MapKeys() {
			x := reflect.New(dst.Type().Elem()).Elem()
			toRepr(src.MapIndex(k), x, leaf)
			dst.SetMapIndex(k, x)
		}
	case reflect.Struct:
		if src.Type().Name() != "" {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			toRepr(src.Field(i), dst.Field(i), leaf)
		}
	default:
		dst.Set(src)
	}
}

func customWorld(t *rapid.T, leaf reflect.Type) (w, wr *World, conc reflect.Type) {
	ptr, always := pick(t, 2, "ptr") == 1, pick(t, 3, "always") == 2
	name := fmt.Sprintf("custom/%d", pick(t, 100, "name"))
	mk := func(rt reflect.Type) *World {
		w := emptyWorld()
		w.add(regStep{i: &Iface{T: anyType, Always: always}})
		w.add(regStep{c: newConc(rt, ptr, name)})
		return w
	}
	w, wr = mk(leaf), mk(reprType(leaf))
	return w, wr, w.concs[0].form()
}

func checkRepr(t *rapid.T, json bool) {
	leaf := pickFrom(t, customTypes, "leaf")
	w, wr, conc := emptyWorld(), emptyWorld(), leaf
	iface := pick(t, 3, "iface") == 2
	if iface {
		w, wr, conc = customWorld(t, leaf)
	}
	rt := drawPos(t, leaf, json, iface)
	if pick(t, 6, "top") == 5 {
		rt = leaf
		if pick(t, 3, "ptop") == 2 {
			rt = reflect.PtrTo(leaf)
		}
	}
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, leaf, conc, func() reflect.Value { return drawCustom(t, leaf) })
	if !json && topNil(rv) {
		return
	}
	rr := evo{}.mapType(rt, leaf, reprType(leaf))
	rep := reflect.New(rr).Elem()
	toRepr(rv, rep, leaf)
	d := drawn{w, rt, rv}
	enc, dec := marshalBin, unmarshalBin
	if json {
		enc, dec = marshalJSON, unmarshalJSON
	}
	a, b := enc(w.cdc, rv.Interface()), enc(wr.cdc, rep.Interface())
	if _, must := optionTag(leaf); must && a.panik == nil && b.panik == nil && a.failed() && b.failed() {
		return // not numbers, or not in a field
	}
	if a.failed() || b.failed() {
		t.Fatalf("encoding failed: %v; the representation: %v\n%v", a, b, d)
	}
	nt := len(a.bz) > 1
	if json {
		nt = nontrivJSON(a.bz)
	}
	ev.count(nt, caseFP(rt, a.bz), func() string { return fmt.Sprintf("%v: %x", d, clip(a.bz)) }, "leaf:"+leaf.Name(), fmt.Sprintf("iface:%v", iface))
	if !bytes.Equal(a.bz, b.bz) {
		t.Fatalf("not encoded as the representation\n got  %x %q\n want %x %q\n%v", clip(a.bz), clip(a.bz), clip(b.bz), clip(b.bz), d)
	}
	got, o := dec(w.cdc, a.bz, rt)
	if o.failed() {
		t.Fatalf("decoding %x %q failed: %v\n%v", clip(a.bz), clip(a.bz), o, d)
	}
	// What comes back has the representation that a value decoded from the
	// same bytes as a representation has.
	gotRep, o2 := dec(wr.cdc, a.bz, rr)
	if o2.failed() {
		t.Fatalf("decoding the representation %x failed: %v\n%v", clip(a.bz), o2, d)
	}
	x := reflect.New(rr).Elem()
	toRepr(got, x, leaf)
	if s := diff(gotRep, x); s != "" {
		t.Fatalf("decoded to another representation at %s\n got %s\n want %s\n%v", s, dump(x), dump(gotRep), d)
	}
	// The same from a variable that holds data (non-nil interfaces are refused
	// in binary, and fields may be kept in JSON where that is said of the field).
	if !(iface && !json) && !(json && keepsOmitted(rt, map[reflect.Type]bool{})) {
		used := reflect.New(rt).Elem()
		fillPos(t, used, leaf, conc, func() reflect.Value { return drawCustom(t, leaf) })
		was := dump(used)
		uo := try(func() ([]byte, error) {
			if json {
				return nil, w.cdc.UnmarshalJSON(a.bz, used.Addr().Interface())
			}
			return nil, w.cdc.UnmarshalBinaryBare(a.bz, used.Addr().Interface())
		})
		if uo.failed() {
			t.Fatalf("decoding %x %q into %s failed: %v\n%v", clip(a.bz), clip(a.bz), was, uo, d)
		}
		y := reflect.New(rr).Elem()
		toRepr(used, y, leaf)
		if s := diff(gotRep, y); s != "" {
			t.Fatalf("decoded %x %q into %s to another representation at %s\n got %s\n want %s\n%v", clip(a.bz), clip(a.bz), was, s, dump(y), dump(gotRep), d)
		}
	}
	if json || topNil(got) {
		return
	}
	again := enc(w.cdc, got.Interface())
	if again.failed() || !bytes.Equal(again.bz, a.bz) {
		t.Fatalf("the decoded value encodes differently: %v, want %x\n%v", again, clip(a.bz), d)
	}
}

// checkReprFail: one failing value somewhere.
func checkReprFail(t *rapid.T, json bool) {
	defer drawErrRepr(t)()
	leaf := pickFrom(t, []reflect.Type{tof(RFail(0)), tof(RFailS{})}, "leaf")
	w, wr, conc := emptyWorld(), emptyWorld(), leaf
	iface := pick(t, 3, "iface") == 2
	if iface {
		w, wr, conc = customWorld(t, leaf)
	}
	rt := drawPos(t, leaf, json, iface)
	if pick(t, 6, "top") == 5 {
		rt = leaf
	}
	rr := evo{}.mapType(rt, leaf, reprType(leaf))
	mk := func(v int32) reflect.Value {
		if leaf == tof(RFailS{}) {
			return reflect.ValueOf(RFailS{v})
		}
		return reflect.ValueOf(RFail(v))
	}
	rv := reflect.New(rt).Elem()
	var at []int
	n := 0
	bad := pick(t, 5, "bad")
	fillPos(t, rv, leaf, conc, func() reflect.Value {
		n++
		if n-1 == bad {
			at = append(at, bad)
			return mk(13)
		}
		return mk(pickFrom(t, []int32{0, 1, 100, -5}, "v"))
	})
	if len(at) == 0 {
		return
	}
	enc, dec := marshalBin, unmarshalBin
	if json {
		enc, dec = marshalJSON, unmarshalJSON
	}
	d := drawn{w, rt, rv}
	o := enc(w.cdc, rv.Interface())
	ev.count(true, []byte(rt.String()+dump(rv)), func() string { return fmt.Sprintf("%v: %v", d, o) }, "fail-encode", "leaf:"+leaf.Name())
	if o.panik != nil || o.err == nil || !causedBy(o.err, errRepr) {
		t.Fatalf("the error of MarshalAmino was lost: %v\n%v", o, d)
	}
	// The same value with 13 replaced by 17 fails to decode.
	rep := reflect.New(rr).Elem()
	replaceFail(rv, leaf, mk(17))
	toRepr(rv, rep, leaf)
	o = enc(wr.cdc, rep.Interface())
	if o.failed() {
		t.Fatalf("encoding the representation: %v", o)
	}
	_, o2 := dec(w.cdc, o.bz, rt)
	if o2.panik != nil || o2.err == nil || !causedBy(o2.err, errRepr) {
		t.Fatalf("the error of UnmarshalAmino was lost: %v\n input %x %q\n%v", o2, clip(o.bz), clip(o.bz), d)
	}
}

// checkReprEmpty: an error about an empty representation. Whether empty values
// are decoded depends on where they are; where they are, the error comes out.
func checkReprEmpty(t *rapid.T, json bool) {
	defer drawErrRepr(t)()
	leaf := pickFrom(t, []reflect.Type{tof(RWant{}), tof(RWantTwo{})}, "leaf")
	w, _, conc := customWorld(t, leaf)
	zero := reflect.New(leaf).Elem()
	list := reflect.MakeSlice(reflect.SliceOf(leaf), 1+pick(t, 3, "n"), 4)
	for i := 0; i < list.Len(); i++ {
		if i > 0 {
			x := reflect.New(leaf)
			reflectSetV(x.Interface(), 5)
			list.Index(i).Set(x.Elem())
		}
	}
	inIface := reflect.New(anyType).Elem()
	if conc.Kind() == reflect.Ptr {
		inIface.Set(reflect.New(leaf))
	} else {
		inIface.Set(zero)
	}
	one := func(v reflect.Value, tag string) reflect.Value {
		fs := []reflect.StructField{{Name: "X", Type: v.Type(), Tag: reflect.StructTag(tag)}}
		if pick(t, 2, "more") == 1 {
			fs = append(fs, reflect.StructField{Name: "Y", Type: tof(int64(0))})
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		s.Field(0).Set(v)
		if len(fs) > 1 {
			s.Field(1).SetInt(drawInt(t, 64))
		}
		return s
	}
	var rv reflect.Value
	where := pickFrom(t, []string{"top", "list", "interface", "write_empty", "list in a field", "interfaces in a list"}, "where")
	switch where {
	case "top":
		rv = zero
	case "list":
		rv = list
	case "interface":
		rv = one(inIface, "")
	case "write_empty":
		rv = one(zero, `amino:"write_empty"`)
	case "list in a field":
		rv = one(list, "")
	default:
		l := reflect.MakeSlice(reflect.SliceOf(anyType), 1, 1)
		l.Index(0).Set(inIface)
		rv = one(l, "")
	}
	for i, n := 0, pick(t, 3, "around"); i < n && where != "top" && where != "list"; i++ {
		l := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 1, 1)
		l.Index(0).Set(rv)
		rv = one(l, "")
	}
	enc, dec := marshalBin, unmarshalBin
	if json {
		enc, dec = marshalJSON, unmarshalJSON
	}
	d := drawn{w, rv.Type(), rv}
	o := enc(w.cdc, rv.Interface())
	if o.failed() {
		t.Fatalf("encoding: %v\n%v", o, d)
	}
	ev.count(true, caseFP(rv.Type(), o.bz), func() string { return fmt.Sprintf("%v: %x", d, clip(o.bz)) }, "empty:"+where, "leaf:"+leaf.Name())
	before := atomic.LoadInt64(&wantErrors)
	_, o2 := dec(w.cdc, o.bz, rv.Type())
	if o2.panik == nil && o2.err == nil && atomic.LoadInt64(&wantErrors) == before {
		return // Default values don't have to be decoded.
	}
	ev.class("empty:decoded", 1)
	if o2.panik != nil || o2.err == nil || !causedBy(o2.err, errRepr) {
		t.Fatalf("the error of UnmarshalAmino about an empty representation was lost (%s): %v\n input %x %q\n%v", where, o2, clip(o.bz), clip(o.bz), d)
	}
}

func reflectSetV(p interface{}, v int64) {
	switch p := p.(type) {
	case *RWant:
		p.v = v
	case *RWantTwo:
		p.v = v
	}
}

func sameErr(a, b error) bool { return reflect.DeepEqual(a, b) }

// causedBy: the error may be wrapped or quoted.
func causedBy(err, cause error) bool {
	return sameErr(err, cause) || errors.Is(err, cause) || strings.Contains(err.Error(), cause.Error())
}

// replaceFail replaces the failing custom value.
func replaceFail(rv reflect.Value, leaf reflect.Type, by reflect.Value) {
	if rv.Type() == leaf {
		x := rv.Interface()
		if x == RFail(13) || x == (RFailS{13}) {
			rv.Set(by)
		}
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			replaceFail(rv.Elem(), leaf, by)
		}
	case reflect.Interface:
		if rv.IsNil() {
			return
		}
		v := rv.Elem()
		if v.Kind() == reflect.Ptr {
			replaceFail(v, leaf, by)
			return
		}
		x := reflect.New(v.Type()).Elem()
		x.Set(v)
		replaceFail(x, leaf, by)
		rv.Set(x)
	case reflect.Slice, reflect.Array:
		if isByteBottom(rv.Type()) {
			return
		}
		for i := 0; i < rv.Len(); i++ {
			replaceFail(rv.Index(i), leaf, by)
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			x := reflect.New(rv.Type().Elem()).Elem()
			x.Set(rv.MapIndex(k))
			replaceFail(x, leaf, by)
			rv.SetMapIndex(k, x)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				replaceFail(rv.Field(i), leaf, by)
			}
		}
	}
}

// TestC17: custom representations.
func TestC17(t *testing.T) {
	run(t, "binary", 15, func(t *rapid.T) { checkRepr(t, false) })
	run(t, "json", 12, func(t *rapid.T) { checkRepr(t, true) })
	run(t, "binary_errors", 8, func(t *rapid.T) { checkReprFail(t, false) })
	run(t, "json_errors", 8, func(t *rapid.T) { checkReprFail(t, true) })
	run(t, "binary_empty", 4, func(t *rapid.T) { checkReprEmpty(t, false) })
	run(t, "json_empty", 4, func(t *rapid.T) { checkReprEmpty(t, true) })
	once(t, "known", func(t *testing.T) {
		if shard == 0 {
			knownReprs(t)
		}
	})
}

// ---------------------------------------------------------------- known findings

type kIntStr int64

func (r kIntStr) MarshalAmino() (string, error)  { return strings.Repeat("x", int(r)), nil }
func (r *kIntStr) UnmarshalAmino(x string) error { *r = kIntStr(len(x)); return nil }

type kStructStr struct{ s string }

func (r kStructStr) MarshalAmino() (string, error)  { return r.s, nil }
func (r *kStructStr) UnmarshalAmino(x string) error { r.s = x; return nil }

type kStructList struct{ l []CSmall }

func (r kStructList) MarshalAmino() ([]CSmall, error)  { return r.l, nil }
func (r *kStructList) UnmarshalAmino(x []CSmall) error { r.l = x; return nil }

type kByte uint8

func (r kByte) MarshalAmino() (uint8, error)  { return ^uint8(r) + 1, nil }
func (r *kByte) UnmarshalAmino(x uint8) error { *r = kByte(^x + 1); return nil }

type kPlusOne int64

func (r kPlusOne) MarshalAmino() (int64, error)  { return int64(r) + 1, nil }
func (r *kPlusOne) UnmarshalAmino(x int64) error { *r = kPlusOne(x - 1); return nil }

// reprFindings are the places where the code is known to break the property.
var reprFindings = []struct {
	what string
	a, b interface{} // encoded alike, if the property held
}{
	{"field of a number type represented by a string", struct{ X kIntStr }{3}, struct{ X string }{"xxx"}},
	{"struct represented by a string at the top level", kStructStr{"abc"}, "abc"},
	{"field of a struct type represented by a list", struct{ X kStructList }{kStructList{[]CSmall{{1}, {2}}}}, struct{ X []CSmall }{[]CSmall{{1}, {2}}}},
	{"list of one-byte numbers with a representation", struct{ X []kByte }{[]kByte{1}}, struct{ X []uint8 }{[]uint8{255}}},
	{"default value with a representation that isn't", struct{ X kPlusOne }{0}, struct{ X int64 }{1}},
	{"value with a default representation decoded as another", struct{ X kPlusOne }{-1}, nil},
}

func knownReprs(t *testing.T) {
	cdc := emptyWorld().cdc
	for _, f := range reprFindings {
		a := marshalBin(cdc, f.a)
		broken := false
		if f.b != nil {
			broken = a.failed() || !bytes.Equal(a.bz, marshalBin(cdc, f.b).bz)
		}
		got, o := unmarshalBin(cdc, a.bz, reflect.TypeOf(f.a))
		broken = broken || o.failed() || !reflect.DeepEqual(got.Interface(), f.a)
		ev.count(true, []byte(f.what), func() string { return f.what }, "finding")
		if broken {
			reportFinding(t, "C17", f.what)
		}
	}
}
