package harness

import (
	"bytes"
	"fmt"
	"math/bits"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// Recursive types, one for each way to nest.
type (
	NPtr struct {
		h int16 // doesn't come along
		N int8
		P *NPtr
	}
	NList struct {
		L []NList
		S string
	}
	NPList struct {
		L []*NPList `amino:"empty_elements"`
		T *int
	}
	NIface struct {
		X Any
		I IA
	}
	NMap struct {
		M map[string]NMap
		N int32
	}
	// NRepr is represented by a struct that holds the next.
	NRepr     struct{ p *NRepr }
	NReprRepr struct {
		N int64
		P *NRepr
	}
	NWE struct {
		P []*NWE `amino:"write_empty,empty_elements" json:",omitempty"`
		B []byte
	}
	// NOmit has fields that may be missing.
	NOmit struct {
		N int32             `json:"n,omitempty"`
		P *NOmit            `json:",omitempty"`
		Q **NOmit           `json:",omitempty"`
		V NOmitV            `json:",omitempty"`
		M map[string]*NOmit `json:",omitempty"`
	}
	NOmitV struct {
		A [1]*NOmit `json:",omitempty"`
		X Any       `json:",omitempty"`
	}
	NArr struct {
		A [1]*NArr
		O []int64
	}
)

func (NIface) A()                                 {}
func (r NRepr) MarshalAmino() (NReprRepr, error)  { return NReprRepr{7, r.p}, nil }
func (r *NRepr) UnmarshalAmino(x NReprRepr) error { r.p = x.P; return nil }

// nestOnce puts v inside another value of its type.
func nestOnce(t *rapid.T, v reflect.Value, js bool) reflect.Value {
	switch x := v.Interface().(type) {
	case NPtr:
		return reflect.ValueOf(NPtr{int16(pick(t, 2, "h")), int8(pick(t, 3, "n")), &x})
	case NList:
		l := []NList{x}
		if pick(t, 3, "more") == 0 {
			l = append(l, NList{S: "x"})
		}
		return reflect.ValueOf(NList{L: l})
	case NPList:
		return reflect.ValueOf(NPList{L: []*NPList{&x}})
	case NIface:
		if pick(t, 2, "which") == 0 {
			return reflect.ValueOf(NIface{X: x})
		}
		return reflect.ValueOf(NIface{I: x})
	case NMap:
		return reflect.ValueOf(NMap{M: map[string]NMap{"k": x}})
	case NRepr:
		return reflect.ValueOf(NRepr{&x})
	case NWE:
		return reflect.ValueOf(NWE{P: []*NWE{&x}})
	case NOmit:
		ways := 3
		if !js {
			ways = 2
		}
		y := NOmit{N: int32(pick(t, 3, "n"))}
		switch pick(t, ways, "way") {
		case 0:
			y.P = &x
		case 1:
			p := &x
			y.Q = &p
		case 2:
			y.M = map[string]*NOmit{"k": &x}
		}
		return reflect.ValueOf(y)
	case NOmitV:
		return reflect.ValueOf(NOmitV{A: [1]*NOmit{{V: x}}})
	case NArr:
		return reflect.ValueOf(NArr{A: [1]*NArr{&x}})
	}
	panic("no case")
}

var nestTypes = []reflect.Type{tof(NPtr{}), tof(NList{}), tof(NPList{}), tof(NIface{}), tof(NRepr{}), tof(NWE{}), tof(NArr{}), tof(NMap{}), tof(NOmit{}), tof(NOmitV{})}

// memSize is what a value takes in memory.
func memSize(rv reflect.Value) int {
	n := int(rv.Type().Size())
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			n += memSize(rv.Elem())
		}
	case reflect.Slice, reflect.Array:
		if isScalarKind(rv.Type().Elem().Kind()) && rv.Type().Elem().Kind() != reflect.String {
			return n + rv.Len()*int(rv.Type().Elem().Size())
		}
		for i := 0; i < rv.Len(); i++ {
			n += memSize(rv.Index(i))
		}
	case reflect.String:
		n += rv.Len()
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			n += 64 + memSize(k) + memSize(rv.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			n += memSize(rv.Field(i))
		}
	}
	return n
}

// nestDepth is the number of levels of a value.
func nestDepth(rv reflect.Value) int {
	d := 0
	up := func(v reflect.Value) {
		if k := nestDepth(v); k > d {
			d = k
		}
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			up(rv.Elem())
		}
		return d
	case reflect.Slice, reflect.Array:
		if isScalarKind(rv.Type().Elem().Kind()) {
			return 0
		}
		for i := 0; i < rv.Len(); i++ {
			up(rv.Index(i))
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			up(rv.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			up(rv.Field(i))
		}
	default:
		return 0
	}
	return d + 1
}

const (
	costBase = 1 << 20
	costPer  = 96 // bytes allocated per byte of value and result and level
)

func checkCost(t *rapid.T) {
	w := emptyWorld()
	var d drawn
	how := "drawn"
	json := pick(t, 2, "json") == 1
	if pick(t, 3, "shape") == 0 {
		d = drawCase(t, json)
		w = d.w
	} else {
		rt := pickFrom(t, nestTypes, "nest")
		if rt == tof(NMap{}) {
			json = true
		}
		if rt == tof(NIface{}) {
			w.add(regStep{i: &Iface{T: anyType}})
			w.add(regStep{i: &Iface{T: iaType, Always: pick(t, 2, "always") == 1}})
			w.add(regStep{c: newConc(rt, false, "nest")})
		}
		if rt == tof(NOmit{}) || rt == tof(NOmitV{}) {
			w.add(regStep{i: &Iface{T: anyType}})
		}
		v := reflect.New(rt).Elem()
		if rt != tof(NIface{}) && (json || rt != tof(NOmit{}) && rt != tof(NOmitV{})) {
			fillValue(t, v, newV(w, json))
		}
		n := pickFrom(t, []int{3, 10, 18, 20, 22, 24, 26, 30, 60, 120, 300}, "levels")
		how = "nested"
		cp := pick(t, 2, "copy") == 0
		for i := 0; i < n; i++ {
			if i == 17 || i == 20 || i == 23 {
				// What doubles with each level is seen before it takes forever.
				rv := reflect.New(rt).Elem()
				rv.Set(v)
				measureCost(t, drawn{w, rt, rv}, how, json, cp)
			}
			v = nestOnce(t, v, json)
		}
		rv := reflect.New(rt).Elem()
		rv.Set(v)
		measureCost(t, drawn{w, rt, rv}, how, json, cp)
		return
	}
	measureCost(t, d, how, json, pick(t, 2, "copy") == 0)
}

func measureCost(t *rapid.T, d drawn, how string, json, cp bool) {
	w := d.w
	if topNil(d.rv) {
		return
	}
	size, depth := memSize(d.rv), nestDepth(d.rv)
	arg := d.rv.Interface()
	report := func(what string, n int, o outcome, used, limit uint64) {
		ev.count(depth > 2 || how == "wide", caseFP(d.rt, []byte(fmt.Sprint(what, size, depth, n))), func() string {
			return fmt.Sprintf("%s of a %v of %d bytes and %d levels: %d bytes, %d allocated", what, typeStr(d.rt), size, depth, n, used)
		}, how, what)
		if used > limit {
			t.Fatalf("%s of a value of %d bytes and %d levels with a result of %d bytes allocated %d bytes, more than %d\n%v", what, size, depth, n, used, limit, d)
		}
		if os.Getenv("VERIF_RATIO") != "" {
			fmt.Printf("RATIO %.4f %s %s size %d depth %d n %d used %d\n", float64(used)/float64(limit), what, typeStr(d.rt), size, depth, n, used)
		}
	}
	limitOf := func(n int) uint64 { return uint64(costBase + (size+n)*costPer*(1+depth)) }
	enc, dec, what := marshalBin, unmarshalBin, "binary encoding"
	if json {
		enc, dec, what = marshalJSON, unmarshalJSON, "JSON encoding"
	}
	// The limit depends on the length of the result, which a run that goes
	// astray doesn't reach: the watchdog ends it.
	var n int
	o, used := checkAlloc(limitOf(0), func() outcome { o := enc(w.cdc, arg); n = len(o.bz); return o })
	if o.failed() {
		if how == "nested" {
			t.Fatalf("encoding: %v\n%v", o, d)
		}
		return
	}
	report(what, n, o, used, limitOf(n))
	o2, used := checkAlloc(limitOf(n), func() outcome { _, x := dec(w.cdc, o.bz, d.rt); return x })
	report(what[:len(what)-8]+"decoding", n, o2, used, limitOf(n))
	if cp {
		oc, used := checkAlloc(limitOf(0), func() outcome {
			return try(func() ([]byte, error) { amino.DeepCopy(arg); return nil, nil })
		})
		if !oc.failed() {
			report("copying", 0, oc, used, limitOf(0))
		}
	}
}

var wideElems = []reflect.Type{tof(int64(0)), tof(uint8(0)), tof(""), tof([]byte{}), tof(time.Time{}), tof(true), tof(Leaf{}), tof(&Leaf{}),
	tof([]int16{}), tof([2]uint8{}), tof([]Leaf{}), tof(RInt(0)), tof(RStruct{}), tof(Inner{}), tof(JHex(0)), anyType, iaType, tof(Empty{}), tof([2]*Leaf{})}

// drawWide draws a value with a list of n elements.
func drawWide(t *rapid.T, n int, json bool) drawn {
	w := emptyWorld()
	et := pickFrom(t, wideElems, "elem")
	if et.Kind() == reflect.Interface {
		w.add(regStep{i: &Iface{T: et, Always: pick(t, 2, "always") == 1}})
		w.add(regStep{c: newConc(tof(NIface{}), false, "wide")})
	}
	// A few elements, over and over.
	var some []reflect.Value
	for i := 0; i < 4; i++ {
		x := reflect.New(et).Elem()
		if et.Kind() == reflect.Interface {
			x.Set(reflect.ValueOf(NIface{}))
		} else {
			v := newV(w, json)
			fillValue(t, x, v)
		}
		if x.Kind() == reflect.Ptr && x.IsNil() {
			x.Set(reflect.New(et.Elem()))
		}
		for j := 0; x.Kind() == reflect.Array && j < x.Len(); j++ {
			if x.Index(j).Kind() == reflect.Ptr {
				x.Index(j).Set(reflect.New(et.Elem().Elem()))
			}
		}
		if memSize(x) > 200 { // a long string, or so
			x = reflect.New(et).Elem()
		}
		some = append(some, x)
	}
	var list reflect.Value
	kind := pickFrom(t, []string{"slice", "slice", "slice", "array", "map", "string", "bytes"}, "kind")
	if kind == "map" && !json {
		kind = "slice"
	}
	if isListKind(et) && et.Elem().Kind() != reflect.Uint8 && (kind == "slice" || kind == "array") {
		kind = "list of structs"
	}
	switch kind {
	case "slice":
		list = reflect.MakeSlice(reflect.SliceOf(et), n, n)
	case "array":
		list = reflect.New(reflect.ArrayOf(1<<uint(bits.Len(uint(n))), et)).Elem() // few types
	case "list of structs":
		list = reflect.MakeSlice(reflect.SliceOf(reflect.StructOf([]reflect.StructField{{Name: "X", Type: et}})), n, n)
	case "map":
		list = reflect.MakeMap(reflect.MapOf(tof(""), et))
		for i := 0; i < n; i++ {
			list.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i)), some[i%4])
		}
	case "string":
		list = reflect.ValueOf(strings.Repeat(pickFrom(t, []string{"a", "\\", "\"\n", "世", "\u2028", "<"}, "s"), n))
	default:
		list = reflect.ValueOf(bytes.Repeat([]byte{7}, n))
	}
	switch kind {
	case "slice", "array":
		for i := 0; i < list.Len(); i++ {
			list.Index(i).Set(some[i%4])
		}
	case "list of structs":
		for i := 0; i < n; i++ {
			list.Index(i).Field(0).Set(some[i%4])
		}
	}
	// Where it is.
	at := pick(t, 4, "at")
	if at > 0 || kind == "map" {
		f := reflect.StructField{Name: "L", Type: list.Type()}
		if at == 2 && (et.Kind() == reflect.Ptr || et.Kind() == reflect.Struct) {
			f.Tag = `amino:"empty_elements"`
		}
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: tof(int8(0))}, f, {Name: "Z", Type: tof("")}})).Elem()
		s.Field(0).SetInt(3)
		s.Field(1).Set(list)
		s.Field(2).SetString("z")
		list = s
		if at == 3 {
			list = s.Addr()
		}
	}
	rv := reflect.New(list.Type()).Elem()
	rv.Set(list)
	return drawn{w, rv.Type(), rv}
}

// checkWide: long lists, maps and strings.
func checkWide(t *rapid.T) {
	json := pick(t, 2, "json") == 1
	n := pickFrom(t, []int{100, 1000, 3000, 10000, 30000}, "n")
	d := drawWide(t, n, json)
	measureCost(t, d, "wide", json, pick(t, 2, "copy") == 0)
}

// checkTime: what is n times as long takes about n times as long, in CPU time.
func checkTime(t *rapid.T) {
	json := pick(t, 2, "json") == 1
	d := drawWide(t, 1500, json)
	big := d
	// The same value with 100 times the elements.
	v := reflect.New(d.rt).Elem()
	v.Set(clone(d.rv))
	grow := v
	if grow.Kind() == reflect.Ptr {
		grow = grow.Elem()
	}
	if grow.Kind() == reflect.Struct {
		grow = grow.Field(1)
	}
	const factor = 100
	switch grow.Kind() {
	case reflect.Slice:
		s := reflect.MakeSlice(grow.Type(), 0, grow.Len()*factor)
		for i := 0; i < factor; i++ {
			s = reflect.AppendSlice(s, grow)
		}
		grow.Set(s)
	case reflect.String:
		grow.SetString(strings.Repeat(grow.String(), factor))
	case reflect.Map:
		x := grow.MapIndex(reflect.ValueOf("k0"))
		for i := 0; i < grow.Len()*(factor-1); i++ {
			grow.SetMapIndex(reflect.ValueOf(fmt.Sprint("m", i)), x)
			if grow.Len() >= 1500*factor {
				break
			}
		}
	default:
		return
	}
	big.rv = v
	enc, dec, what := marshalBin, unmarshalBin, "binary "
	if json {
		enc, dec, what = marshalJSON, unmarshalJSON, "JSON "
	}
	type step struct {
		name string
		f    func(d drawn, bz []byte) outcome
	}
	a, b := enc(d.w.cdc, d.rv.Interface()), enc(d.w.cdc, big.rv.Interface())
	if a.failed() || b.failed() {
		return
	}
	for _, s := range []step{
		{what + "encoding", func(d drawn, bz []byte) outcome { return enc(d.w.cdc, d.rv.Interface()) }},
		{what + "decoding", func(d drawn, bz []byte) outcome { _, o := dec(d.w.cdc, bz, d.rt); return o }},
		{"copying", func(d drawn, bz []byte) outcome {
			return try(func() ([]byte, error) { amino.DeepCopy(d.rv.Interface()); return nil, nil })
		}},
	} {
		var one, all time.Duration
		for i := 0; i < 3; i++ {
			t0 := cpuTime()
			for k := 0; k < 4; k++ {
				s.f(d, a.bz)
			}
			t1 := cpuTime()
			s.f(big, b.bz)
			t2 := cpuTime()
			if x := (t1 - t0) / 4; i == 0 || x > one {
				one = x // the slowest of the short
			}
			if x := t2 - t1; i == 0 || x < all {
				all = x // the quickest of the long
			}
			if all < slowAll {
				break
			}
		}
		ev.count(true, caseFP(d.rt, []byte(s.name+fmt.Sprint(json, len(b.bz)))), func() string {
			return fmt.Sprintf("%s of a %v: %v for %d bytes, %v for %d", s.name, typeStr(d.rt), one, len(a.bz), all, len(b.bz))
		}, "time", "time of "+s.name)
		if all > slowAll && all > one*factor*5 {
			t.Fatalf("%s of %v takes %v for %d bytes and %v for %d", s.name, typeStr(d.rt), one, len(a.bz), all, len(b.bz))
		}
	}
}

// slowAll is far more than any of these takes on the slowest of machines.
const slowAll = 2 * time.Second

// TestC26: what encoding, decoding and copying cost.
func TestC26(t *testing.T) {
	run(t, "cost", 10, checkCost)
	run(t, "wide", 1.5, checkWide)
	run(t, "time", 0.2, checkTime)
}
