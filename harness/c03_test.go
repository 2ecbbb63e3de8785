package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes/timestamp"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Proto3 message types made from Go types
//
// A drawn Go struct type is turned into the type golang/protobuf would use for
// the corresponding Proto3 message. Since such types have no methods they are
// encoded as the extension of a static message, and unwrapped.

type extTop struct {
	proto.XXX_InternalExtensions `json:"-"`
	XXX_unrecognized             []byte
}

func (m *extTop) Reset()         { *m = extTop{} }
func (m *extTop) String() string { return "extTop" }
func (*extTop) ProtoMessage()    {}
func (*extTop) ExtensionRangeArray() []proto.ExtensionRange {
	return []proto.ExtensionRange{{Start: 1, End: 1<<29 - 1}}
}

var extNum atomic.Int32

var tsType = tof((*timestamp.Timestamp)(nil))

type pinfo struct {
	t    reflect.Type
	desc *proto.ExtensionDesc
}

func newPinfo(msg reflect.Type) pinfo {
	n := extNum.Add(1)
	return pinfo{msg, &proto.ExtensionDesc{ExtendedType: (*extTop)(nil), ExtensionType: reflect.Zero(reflect.PtrTo(msg)).Interface(),
		Field: n, Name: fmt.Sprintf("x%d", n), Tag: fmt.Sprintf("bytes,%d,opt,name=x%d", n, n)}}
}

func (p pinfo) marshal(v reflect.Value) (body []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("protobuf: %v", r)
		}
	}()
	top := &extTop{}
	if err := proto.SetExtension(top, p.desc, v.Interface()); err != nil {
		return nil, err
	}
	bz, err := proto.Marshal(top)
	if err != nil {
		return nil, err
	}
	_, n := decUvarint(bz)
	body, _ = decLen(bz[n:])
	return body, nil
}

func (p pinfo) unmarshal(body []byte) (v reflect.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("protobuf: %v", r)
		}
	}()
	bz := append(key(uint64(p.desc.Field), wBytes), wrap(body)...)
	top := &extTop{}
	if err := proto.Unmarshal(bz, top); err != nil {
		return v, err
	}
	x, err := proto.GetExtension(top, p.desc)
	return reflect.ValueOf(x), err
}

var protoScalar = map[reflect.Kind]reflect.Type{
	reflect.Int: tof(int64(0)), reflect.Int64: tof(int64(0)), reflect.Int32: tof(int32(0)), reflect.Int16: tof(int32(0)), reflect.Int8: tof(int32(0)),
	reflect.Uint: tof(uint64(0)), reflect.Uint64: tof(uint64(0)), reflect.Uint32: tof(uint32(0)), reflect.Uint16: tof(uint32(0)), reflect.Uint8: tof(uint32(0)),
	reflect.Bool: tof(false), reflect.String: tof(""), reflect.Float64: tof(float64(0)), reflect.Float32: tof(float32(0))}

func protoEnc(k reflect.Kind, o opts) string {
	switch k {
	case reflect.Int8, reflect.Int16:
		return "zigzag32"
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return "fixed64"
		}
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return "fixed32"
		}
	case reflect.String:
		return "bytes"
	case reflect.Float64:
		return "fixed64"
	case reflect.Float32:
		return "fixed32"
	}
	return "varint"
}

// protoField gives the Go type and tag of the Proto3 field for a Go type.
func protoField(rt reflect.Type, o opts, num int, enum bool) (reflect.Type, string) {
	tail := fmt.Sprintf("name=f%d,proto3", num)
	bt := derefT(rt)
	switch {
	case bt == timeType:
		return tsType, fmt.Sprintf("bytes,%d,opt,%s", num, tail)
	case bt.Kind() == reflect.Struct:
		return reflect.PtrTo(protoMsg(bt)), fmt.Sprintf("bytes,%d,opt,%s", num, tail)
	case isListKind(rt) && rt.Elem().Kind() == reflect.Uint8:
		return tof([]byte{}), fmt.Sprintf("bytes,%d,opt,%s", num, tail)
	case isListKind(rt):
		et, tag := protoField(rt.Elem(), o, num, enum)
		if rt.Elem().Kind() != reflect.String && isScalarKind(rt.Elem().Kind()) {
			return reflect.SliceOf(et), fmt.Sprintf("%s,%d,rep,packed,%s", protoEnc(rt.Elem().Kind(), o), num, tail)
		}
		_ = tag
		return reflect.SliceOf(et), fmt.Sprintf("bytes,%d,rep,%s", num, tail)
	}
	if enum && rt.Kind() == reflect.Int32 && !o.f32 {
		tail += ",enum=verif.E"
	}
	return protoScalar[rt.Kind()], fmt.Sprintf("%s,%d,opt,%s", protoEnc(rt.Kind(), o), num, tail)
}

func protoMsg(rt reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for _, f := range fieldsOf(rt) {
		pt, tag := protoField(f.t, f.o, int(f.num), f.t == tof(MyI32(0)))
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", f.num), Type: pt, Tag: reflect.StructTag(`protobuf:"` + tag + `"`)})
	}
	return reflect.StructOf(fs)
}

// toProto converts a value; present tells whether a message field is set.
func (w *World) toProto(rv, dst reflect.Value, o opts) {
	isPtr := rv.Kind() == reflect.Ptr
	dv, isNil := deref(rv)
	if isNil {
		return
	}
	rt := dv.Type()
	switch {
	case rt == timeType:
		t := dv.Interface().(time.Time)
		if isPtr || t.Unix() != 0 || t.Nanosecond() != 0 {
			dst.Set(reflect.ValueOf(&timestamp.Timestamp{Seconds: t.Unix(), Nanos: int32(t.Nanosecond())}))
		}
	case rt.Kind() == reflect.Struct:
		if !isPtr && len(w.enc(dv, o, true)) == 0 {
			return
		}
		m := reflect.New(dst.Type().Elem())
		for i, f := range fieldsOf(rt) {
			w.toProto(dv.Field(f.idx), m.Elem().Field(i), f.o)
		}
		dst.Set(m)
	case isListKind(rt) && rt.Elem().Kind() == reflect.Uint8:
		b := make([]byte, dv.Len())
		for i := range b {
			b[i] = byte(dv.Index(i).Uint())
		}
		dst.SetBytes(b)
	case isListKind(rt):
		s := reflect.MakeSlice(dst.Type(), dv.Len(), dv.Len())
		for i := 0; i < dv.Len(); i++ {
			e := s.Index(i)
			w.toProto(dv.Index(i), e, o)
			if e.Kind() == reflect.Ptr && e.IsNil() { // an empty message
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
		dst.Set(s)
	default:
		dst.Set(dv.Convert(dst.Type()))
	}
}

// protoDiff compares messages as Proto3 does.
func protoDiff(a, b reflect.Value, at string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return at + ": presence"
		}
		if a.IsNil() {
			return ""
		}
		return protoDiff(a.Elem(), b.Elem(), at)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if n := a.Type().Field(i).Name; len(n) < 4 || n[:4] != "XXX_" {
				if d := protoDiff(a.Field(i), b.Field(i), at+"."+n); d != "" {
					return d
				}
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return at + ": length"
		}
		for i := 0; i < a.Len(); i++ {
			if d := protoDiff(a.Index(i), b.Index(i), ""); d != "" {
				return fmt.Sprintf("%s[%d]%s", at, i, d)
			}
		}
		return ""
	}
	if d := diff(a, b); d != "" {
		return at + d
	}
	return ""
}

// ---------------------------------------------------------------- types both sides can express

func drawProtoField(t *rapid.T, i, depth int) reflect.StructField {
	f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
	var scalarT func() reflect.Type
	scalarT = func() reflect.Type { return drawScalarType(t, tctx{}) }
	switch pick(t, 12, "pk") {
	default:
		f.Type = scalarT()
	case 4:
		f.Type = pickFrom(t, []reflect.Type{tof([]byte{}), tof(MyBytes{}), tof([3]byte{}), tof(MyArr4{}), tof([20]byte{})}, "bt")
	case 5:
		f.Type = pickFrom(t, []reflect.Type{timeType, reflect.PtrTo(timeType)}, "tt")
	case 6:
		if depth > 0 {
			f.Type = drawProtoStruct(t, depth-1)
			if pick(t, 2, "ptr") == 1 {
				f.Type = reflect.PtrTo(f.Type)
			}
		} else {
			f.Type = pickFrom(t, []reflect.Type{tof(Leaf{}), tof(&Leaf{}), tof(Inner{})}, "st")
		}
	case 7, 8: // packed
		et := scalarT()
		for et.Kind() == reflect.String || et.Kind() == reflect.Uint8 {
			et = pickFrom(t, []reflect.Type{tof(0), tof(int32(0)), tof(int8(0)), tof(uint64(0)), tof(true), tof(uint32(0)), tof(int64(0))}, "et")
		}
		f.Type = protoList(t, et)
	case 9, 10: // repeated
		var et reflect.Type
		switch pick(t, 5, "rk") {
		case 0:
			et = tof("")
		case 1:
			et = tof([]byte{})
		case 2:
			et = pickFrom(t, []reflect.Type{timeType, reflect.PtrTo(timeType)}, "tt")
		case 3:
			if depth > 0 {
				et = drawProtoStruct(t, depth-1)
			} else {
				et = tof(Leaf{})
			}
		default:
			if depth > 0 {
				et = reflect.PtrTo(drawProtoStruct(t, depth-1))
			} else {
				et = tof(&Leaf{})
			}
		}
		f.Type = protoList(t, et)
	case 11: // unexported or excluded: not part of the message
		if pick(t, 2, "ex") == 0 {
			f.Name, f.PkgPath, f.Type = fmt.Sprintf("f%d", i), pkgPath, tof(0)
		} else {
			f.Type, f.Tag = tof(""), `json:"-"`
		}
		return f
	}
	switch pick(t, 5, "bin") {
	case 3:
		f.Tag = `binary:"fixed64"`
	case 4:
		f.Tag = `binary:"fixed32"`
	}
	// Options that don't change the meaning of a field.
	var am []string
	if k := f.Type.Kind(); depth == 2 && (isScalarKind(k) || k == reflect.String) && chance(t, 5, "we") {
		am = append(am, "write_empty")
	}
	if chance(t, 6, "unsafe") {
		am = append(am, "unsafe")
	}
	if len(am) > 0 {
		f.Tag += reflect.StructTag(` amino:"` + strings.Join(am, ",") + `"`)
	}
	if chance(t, 6, "omit") {
		f.Tag += ` json:",omitempty"`
	}
	return f
}

// writesEmpty reports whether a field with a default value is written, which
// Proto3 encoders don't do (but decoders accept).
func writesEmpty(rv reflect.Value) bool {
	switch rv.Kind() {
	case reflect.Ptr:
		return !rv.IsNil() && writesEmpty(rv.Elem())
	case reflect.Struct:
		if rv.Type() == timeType {
			return false
		}
		for _, f := range fieldsOf(rv.Type()) {
			if f.writeEmpty && rv.Field(f.idx).IsZero() || writesEmpty(rv.Field(f.idx)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len() && !isScalarKind(rv.Type().Elem().Kind()); i++ {
			if writesEmpty(rv.Index(i)) {
				return true
			}
		}
	}
	return false
}

func protoList(t *rapid.T, et reflect.Type) reflect.Type {
	if chance(t, 4, "arr") {
		return reflect.ArrayOf(1+pick(t, 3, "alen"), et)
	}
	return reflect.SliceOf(et)
}

func drawProtoStruct(t *rapid.T, depth int) reflect.Type {
	n := pick(t, 6, "n")
	if chance(t, 8, "wide") {
		n = 13 + pick(t, 8, "wn")
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, drawProtoField(t, i, depth))
	}
	return reflect.StructOf(fs)
}

// makeProto makes list elements non-nil and strings valid UTF-8.
func makeProto(t *rapid.T, rv reflect.Value, inList bool) {
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			if !inList {
				return
			}
			rv.Set(reflect.New(rv.Type().Elem()))
			if rv.Type().Elem() == timeType {
				rv.Elem().Set(reflect.ValueOf(epoch))
			}
		}
		makeProto(t, rv.Elem(), false)
	case reflect.Struct:
		if rv.Type() == timeType {
			return
		}
		for _, f := range fieldsOf(rv.Type()) {
			makeProto(t, rv.Field(f.idx), false)
		}
	case reflect.Slice, reflect.Array:
		if !isScalarKind(rv.Type().Elem().Kind()) {
			for i := 0; i < rv.Len(); i++ {
				makeProto(t, rv.Index(i), true)
			}
		}
	}
}

func checkProto(t *rapid.T, rt reflect.Type) {
	w := emptyWorld()
	v := newV(w, true) // JSON values: strings are UTF-8
	rv := drawValue(t, rt, v)
	makeProto(t, rv, false)
	desc := func() string { return fmt.Sprintf(" type %v\n value %s", typeStr(rt), dump(rv)) }
	o := marshalBin(w.cdc, rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%s", o, desc())
	}
	// At the top level anything but a struct is the only field of a message.
	msg, top := rt, rv
	if rt.Kind() != reflect.Struct || rt == timeType {
		msg = reflect.StructOf([]reflect.StructField{{Name: "F0", Type: rt}})
		top = reflect.New(msg).Elem()
		top.Field(0).Set(rv)
	}
	if rt == timeType {
		msg, top = rt, rv
	}
	var p pinfo
	if msg == timeType {
		p = newPinfo(tsType.Elem())
	} else {
		p = newPinfo(protoMsg(msg))
	}
	m := reflect.New(reflect.PtrTo(p.t)).Elem()
	w.toProto(top, m, opts{})
	if m.IsNil() {
		m.Set(reflect.New(p.t))
	}
	pb, err := p.marshal(m)
	if err != nil {
		t.Fatalf("protobuf can't encode: %v\n%s", err, desc())
	}
	ev.count(len(pb) >= 2, caseFP(rt, pb), func() string { return desc() + fmt.Sprintf(" = %x", pb) }, shape(rt, pb)...)
	if !writesEmpty(rv) && !bytes.Equal(pb, o.bz) {
		t.Fatalf("amino and protobuf differ\n amino %x\n proto %x\n%s", o.bz, pb, desc())
	}
	back, err := p.unmarshal(o.bz)
	if err != nil {
		t.Fatalf("protobuf can't decode %x: %v\n%s", o.bz, err, desc())
	}
	if d := protoDiff(m, back, ""); d != "" {
		t.Fatalf("protobuf decodes %x differently at %s\n%s", o.bz, d, desc())
	}
	got, do := unmarshalBin(w.cdc, pb, rt)
	if do.failed() {
		t.Fatalf("amino can't decode %x: %v\n%s", pb, do, desc())
	}
	g := reflect.New(reflect.PtrTo(p.t)).Elem()
	gtop := got
	if msg != rt {
		gtop = reflect.New(msg).Elem()
		gtop.Field(0).Set(got)
	}
	w.toProto(gtop.Addr(), g, opts{})
	// Absent times are 1970.
	ntop := w.normTop(rv, rt)
	if msg != rt {
		n := reflect.New(msg).Elem()
		n.Field(0).Set(ntop)
		ntop = n
	}
	m = reflect.New(reflect.PtrTo(p.t)).Elem()
	w.toProto(ntop.Addr(), m, opts{})
	if d := protoDiff(m, g, ""); d != "" {
		t.Fatalf("amino decodes %x differently at %s\n got %s\n%s", pb, d, dump(got), desc())
	}
}

// Messages from the Proto3 side: fields in any value of their Proto3 type that
// the Go type can hold, written by protobuf, read by amino.
func TestC03(t *testing.T) {
	run(t, "messages", 20, func(t *rapid.T) { checkProto(t, drawProtoStruct(t, 2)) })
	run(t, "top_level", 6, func(t *rapid.T) {
		rt := drawProtoField(t, 0, 1).Type
		for rt.Kind() == reflect.Ptr || isListKind(rt) && (rt.Elem().Kind() == reflect.Ptr || rt.Elem() == tof("") || rt.Elem() == tof([]byte{})) {
			rt = tof(int64(0))
		}
		checkProto(t, rt)
	})
	run(t, "floats", 1, func(t *rapid.T) {
		type floats struct {
			A float64   `amino:"unsafe"`
			B float32   `amino:"unsafe"`
			C []float64 `amino:"unsafe"`
			D []float32 `amino:"unsafe"`
		}
		type pfloats struct {
			A float64   `protobuf:"fixed64,1,opt,name=a,proto3"`
			B float32   `protobuf:"fixed32,2,opt,name=b,proto3"`
			C []float64 `protobuf:"fixed64,3,rep,packed,name=c,proto3"`
			D []float32 `protobuf:"fixed32,4,rep,packed,name=d,proto3"`
		}
		w := emptyWorld()
		rv := drawValue(t, tof(floats{}), newV(w, true))
		x := rv.Interface().(floats)
		if x.A == 0 {
			x.A = 1.25 // amino writes zero floats, which a Proto3 message doesn't
		}
		if x.B == 0 {
			x.B = -7
		}
		p := newPinfo(tof(pfloats{}))
		pb, err := p.marshal(reflect.ValueOf(&pfloats{x.A, x.B, x.C, x.D}))
		must(err)
		o := marshalBin(w.cdc, x)
		ev.count(true, pb, func() string { return fmt.Sprintf("%v = %x", x, pb) })
		if o.failed() || !bytes.Equal(o.bz, pb) {
			t.Fatalf("amino %v\nproto %x\n%v", o, pb, x)
		}
		got, do := unmarshalBin(w.cdc, pb, tof(floats{}))
		if do.failed() {
			t.Fatalf("%v", do)
		}
		if s := diff(w.normTop(reflect.ValueOf(x), tof(x)), got); s != "" {
			t.Fatalf("%s", s)
		}
	})
}
