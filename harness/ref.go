package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
)

// ---------------------------------------------------------------- struct fields, from the documented tag rules

type opts struct {
	f64, f32, unsafe, ee bool
	num                  uint64
}

type field struct {
	idx        int
	name       string
	num        uint64
	t          reflect.Type
	jname      string
	omit       bool
	writeEmpty bool
	o          opts
}

var fieldCache = map[reflect.Type][]field{}

func fieldsOf(rt reflect.Type) (out []field) {
	if f, ok := fieldCache[rt]; ok {
		return f
	}
	for i := 0; i < rt.NumField(); i++ {
		sf := rt.Field(i)
		if sf.PkgPath != "" || !exportedName(sf.Name) {
			continue
		}
		js := sf.Tag.Get("json")
		if js == "-" {
			continue
		}
		f := field{idx: i, name: sf.Name, num: uint64(len(out) + 1), t: sf.Type, jname: sf.Name}
		parts := strings.Split(js, ",")
		if parts[0] != "" {
			f.jname = parts[0]
		}
		f.omit = len(parts) > 1 && parts[1] == "omitempty"
		am := sf.Tag.Get("amino")
		f.writeEmpty = hasTag(am, "write_empty")
		f.o = opts{f64: sf.Tag.Get("binary") == "fixed64", f32: sf.Tag.Get("binary") == "fixed32",
			unsafe: hasTag(am, "unsafe"), ee: hasTag(am, "empty_elements"), num: f.num}
		out = append(out, f)
	}
	fieldCache[rt] = out
	return
}

// ---------------------------------------------------------------- reference binary encoder

const (
	wVarint = 0
	w8      = 1
	wBytes  = 2
	w4      = 5
)

func uvarint(u uint64) []byte {
	var out []byte
	for u >= 0x80 {
		out = append(out, byte(u)|0x80)
		u >>= 7
	}
	return append(out, byte(u))
}

func zigzag(i int64) []byte { return uvarint(uint64(i)<<1 ^ uint64(i>>63)) }

func key(num uint64, wt int) []byte { return uvarint(num<<3 | uint64(wt)) }

func wrap(b []byte) []byte { return append(uvarint(uint64(len(b))), b...) }

// wireType of a non-pointer type.
func wireType(rt reflect.Type, o opts) int {
	switch rt.Kind() {
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return w8
		}
		return wVarint
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return w4
		}
		return wVarint
	case reflect.Float64:
		return w8
	case reflect.Float32:
		return w4
	case reflect.String, reflect.Slice, reflect.Array, reflect.Struct, reflect.Interface, reflect.Map:
		return wBytes
	}
	return wVarint
}

type marshaler interface{}

// reprOf returns the representation of a value whose type has one.
func reprOf(rv reflect.Value) (rep reflect.Value, ok bool, err error) {
	m := rv.MethodByName("MarshalAmino")
	if !m.IsValid() {
		return rv, false, nil
	}
	outs := m.Call(nil)
	if !outs[1].IsNil() {
		return rv, true, outs[1].Interface().(error)
	}
	return outs[0], true, nil
}

func deref(rv reflect.Value) (out reflect.Value, isNil bool) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return rv, true
		}
		rv = rv.Elem()
	}
	return rv, false
}

// isDef: what a struct field or list element omits or writes as nothing.
func isDef(rv reflect.Value) bool {
	rv, isNil := deref(rv)
	if isNil {
		return true
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return rv.Uint() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return rv.Len() == 0
	case reflect.Interface:
		return rv.IsNil()
	}
	return false
}

var epoch = time.Unix(0, 0).UTC()

// absent is what a missing (or empty) encoding of a type means.
func absent(rt reflect.Type) reflect.Value {
	rv := reflect.New(rt).Elem()
	setAbsent(rv)
	return rv
}

func hasUnmarshalAmino(rt reflect.Type) bool {
	_, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino")
	return ok
}

func setAbsent(rv reflect.Value) {
	rt := rv.Type()
	switch {
	case rt == timeType:
		rv.Set(reflect.ValueOf(epoch))
	case rt.Kind() == reflect.Ptr && derefT(rt) == timeType:
		for rv.Kind() == reflect.Ptr {
			rv.Set(reflect.New(rv.Type().Elem()))
			rv = rv.Elem()
		}
		rv.Set(reflect.ValueOf(epoch))
	case rt.Kind() == reflect.Struct && !hasUnmarshalAmino(rt):
		for _, f := range fieldsOf(rt) {
			setAbsent(rv.Field(f.idx))
		}
	case rt.Kind() == reflect.Array && !hasUnmarshalAmino(rt):
		for i := 0; i < rv.Len(); i++ {
			setAbsent(rv.Index(i))
		}
	}
}

var errUnsupported = errors.New("unsupported")

// encTop is the reference for MarshalBinaryBare.
func (w *World) encTop(rv reflect.Value) (out []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && (errors.Is(e, errUnsupported) || e == errRepr) {
				err = e
				return
			}
			panic(r)
		}
	}()
	rv, isNil := deref(rv)
	if isNil {
		return nil, errUnsupported
	}
	rt := rv.Type()
	if isStructOrStructs(rt) {
		out = w.enc(rv, opts{num: 1}, true)
	} else {
		wt := wireType(rt, opts{})
		out = w.enc(rv, opts{num: 1}, wt != wBytes)
		if len(out) == 1 && out[0] == 0 {
			out = nil
		} else {
			out = append(key(1, wt), out...)
		}
	}
	if c := w.byT[rt]; c != nil {
		out = append(append([]byte{}, c.Prefix[:]...), out...)
	}
	return out, nil
}

func isStructOrStructs(rt reflect.Type) bool {
	return rt.Kind() == reflect.Struct || isListKind(rt) && rt.Elem().Kind() == reflect.Struct
}

// enc encodes a non-pointer value. bare: without length prefix, for structs,
// interfaces and lists.
func (w *World) enc(rv reflect.Value, o opts, bare bool) []byte {
	if rep, ok, err := reprOf(rv); err != nil {
		panic(err)
	} else if ok {
		return w.enc(rep, o, bare)
	}
	le := binary.LittleEndian
	rt := rv.Type()
	switch rt.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Int8, reflect.Int16:
		return zigzag(rv.Int())
	case reflect.Int64:
		if o.f64 {
			return le.AppendUint64(nil, uint64(rv.Int()))
		}
		return uvarint(uint64(rv.Int()))
	case reflect.Int32:
		if o.f32 {
			return le.AppendUint32(nil, uint32(rv.Int()))
		}
		return uvarint(uint64(rv.Int()))
	case reflect.Int:
		return uvarint(uint64(rv.Int()))
	case reflect.Uint64:
		if o.f64 {
			return le.AppendUint64(nil, rv.Uint())
		}
		return uvarint(rv.Uint())
	case reflect.Uint32:
		if o.f32 {
			return le.AppendUint32(nil, uint32(rv.Uint()))
		}
		return uvarint(rv.Uint())
	case reflect.Uint, reflect.Uint8, reflect.Uint16:
		return uvarint(rv.Uint())
	case reflect.Float64:
		if !o.unsafe {
			panic(errUnsupported)
		}
		return le.AppendUint64(nil, math.Float64bits(rv.Float()))
	case reflect.Float32:
		if !o.unsafe {
			panic(errUnsupported)
		}
		return le.AppendUint32(nil, math.Float32bits(float32(rv.Float())))
	case reflect.String:
		return wrap([]byte(rv.String()))
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, rv.Len())
			for i := range b {
				b[i] = byte(rv.Index(i).Uint())
			}
			return wrap(b)
		}
		out := w.encList(rv, o)
		if bare {
			return out
		}
		return wrap(out)
	case reflect.Struct:
		var out []byte
		if rt == timeType {
			out = encTime(rv.Interface().(time.Time))
		} else {
			out = w.encStruct(rv)
		}
		if bare {
			return out
		}
		return wrap(out)
	case reflect.Interface:
		if rv.IsNil() {
			return []byte{0}
		}
		cv, isNil := deref(rv.Elem())
		if isNil {
			panic(errUnsupported)
		}
		c := w.byT[cv.Type()]
		if c == nil {
			panic(errUnsupported)
		}
		var out []byte
		if w.needDisamb(rt, c) {
			out = append(out, 0)
			out = append(out, c.Disamb[:]...)
		}
		out = append(out, c.Prefix[:]...)
		out = append(out, w.enc(cv, o, true)...)
		if bare {
			return out
		}
		return wrap(out)
	}
	panic(errUnsupported)
}

func encTime(t time.Time) (out []byte) {
	if s := t.Unix(); s != 0 {
		if s < minSec || s > maxSec {
			panic(errUnsupported)
		}
		out = append(out, key(1, wVarint)...)
		out = append(out, uvarint(uint64(s))...)
	}
	if ns := t.Nanosecond(); ns != 0 {
		out = append(out, key(2, wVarint)...)
		out = append(out, uvarint(uint64(ns))...)
	}
	return
}

func (w *World) encList(rv reflect.Value, o opts) (out []byte) {
	et := rv.Type().Elem()
	bt := derefT(et)
	if wireType(bt, o) != wBytes {
		for i := 0; i < rv.Len(); i++ {
			e, isNil := deref(rv.Index(i))
			if isNil {
				e = reflect.Zero(bt)
			}
			out = append(out, w.enc(e, o, false)...)
		}
		return
	}
	for i := 0; i < rv.Len(); i++ {
		out = append(out, key(o.num, wBytes)...)
		if isDef(rv.Index(i)) {
			if o.ee && et.Kind() == reflect.Ptr && bt.Kind() == reflect.Struct {
				panic(errUnsupported)
			}
			out = append(out, 0)
			continue
		}
		e, _ := deref(rv.Index(i))
		eo := o
		eo.num = 1
		out = append(out, w.enc(e, eo, false)...)
	}
	return
}

// unpackedField: lists directly in a field whose elements are length-delimited.
func unpackedField(rt reflect.Type, o opts) bool {
	return isListKind(rt) && rt.Elem().Kind() != reflect.Uint8 && wireType(derefT(rt.Elem()), o) == wBytes
}

func (w *World) encStruct(rv reflect.Value) (out []byte) {
	for _, f := range fieldsOf(rv.Type()) {
		out = append(out, w.encField(rv.Field(f.idx), f)...)
	}
	return
}

func (w *World) encField(fv reflect.Value, f field) []byte {
	if isDef(fv) && !f.writeEmpty {
		return nil
	}
	if unpackedField(f.t, f.o) {
		if rep, ok, err := reprOf(fv); err != nil {
			panic(err)
		} else if ok {
			fv = rep
		}
		return w.encList(fv, f.o)
	}
	dv, isNil := deref(fv)
	if isNil {
		dv = absent(derefT(f.t))
	}
	c := w.enc(dv, f.o, false)
	if len(c) == 1 && c[0] == 0 && !f.writeEmpty && f.t.Kind() != reflect.Ptr {
		return nil
	}
	return append(key(f.num, wireType(derefT(f.t), f.o)), c...)
}

// ---------------------------------------------------------------- normal form after a binary round trip

// normTop is what decoding the encoding of rv into a fresh variable of type rt
// gives, where rv's type is rt with pointers stripped (or rt itself).
func (w *World) normTop(rv reflect.Value, rt reflect.Type) reflect.Value {
	out := reflect.New(rt).Elem()
	dv, _ := deref(rv)
	w.norm(dv, out, opts{num: 1})
	return out
}

// norm sets dst (pointers are allocated) to the normal form of the non-pointer
// value src whose encoding is present.
func (w *World) norm(src, dst reflect.Value, o opts) {
	for dst.Kind() == reflect.Ptr {
		dst.Set(reflect.New(dst.Type().Elem()))
		dst = dst.Elem()
	}
	rt := src.Type()
	if rep, ok, err := reprOf(src); err != nil {
		panic(err)
	} else if ok {
		nrep := reflect.New(rep.Type()).Elem()
		w.norm(rep, nrep, o)
		if e := dst.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{nrep})[0]; !e.IsNil() {
			panic(e.Interface().(error))
		}
		return
	}
	switch rt.Kind() {
	case reflect.Struct:
		if rt == timeType {
			dst.Set(reflect.ValueOf(src.Interface().(time.Time).Round(0).UTC()))
			return
		}
		for _, f := range fieldsOf(rt) {
			w.normField(src.Field(f.idx), dst.Field(f.idx), f)
		}
	case reflect.Slice:
		if src.Len() == 0 {
			return
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			b := reflect.MakeSlice(rt, src.Len(), src.Len())
			reflect.Copy(b, src)
			dst.Set(b)
			return
		}
		s := reflect.MakeSlice(rt, src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			w.normElem(src.Index(i), s.Index(i), o)
		}
		dst.Set(s)
	case reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			dst.Set(src)
			return
		}
		for i := 0; i < src.Len(); i++ {
			w.normElem(src.Index(i), dst.Index(i), o)
		}
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		cv, _ := deref(src.Elem())
		c := w.byT[cv.Type()]
		n := reflect.New(c.T)
		w.norm(cv, n.Elem(), o)
		if c.Ptr {
			dst.Set(n)
		} else {
			dst.Set(n.Elem())
		}
	default:
		dst.Set(src)
	}
}

func (w *World) normElem(src, dst reflect.Value, o opts) {
	et := dst.Type()
	bt := derefT(et)
	if wireType(bt, o) != wBytes { // packed
		e, isNil := deref(src)
		if isNil {
			e = reflect.Zero(bt)
		}
		tmp := reflect.New(et).Elem()
		w.norm(e, tmp, o)
		if et.Kind() == reflect.Ptr && isDef(tmp) {
			return // nil preferred
		}
		dst.Set(tmp)
		return
	}
	eo := o
	eo.num = 1
	nothing := isDef(src)
	if !nothing {
		e, _ := deref(src)
		c := w.enc(e, eo, false)
		nothing = len(c) == 1 && c[0] == 0 && !(o.ee && et.Kind() == reflect.Ptr && bt.Kind() == reflect.Struct)
	}
	if nothing {
		setAbsent(dst)
		return
	}
	e, _ := deref(src)
	w.norm(e, dst, eo)
}

func (w *World) normField(src, dst reflect.Value, f field) {
	if isDef(src) && !f.writeEmpty {
		setAbsent(dst)
		return
	}
	dv, isNil := deref(src)
	if isNil {
		dv = absent(derefT(f.t))
	}
	if !unpackedField(f.t, f.o) && !f.writeEmpty && f.t.Kind() != reflect.Ptr {
		if c := w.enc(dv, f.o, false); len(c) == 1 && c[0] == 0 {
			setAbsent(dst)
			return
		}
	}
	w.norm(dv, dst, f.o)
}

// ---------------------------------------------------------------- strict equality

// diff returns "" if the values are identical, nil versus empty, float bits,
// and dynamic types included.
func diff(a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf(": type %v != %v", a.Type(), b.Type())
	}
	if a.Type() == timeType {
		x, y := getTime(a), getTime(b)
		if x != y {
			return fmt.Sprintf(": time %#v != %#v", x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf(": nil %v != %v", a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		if d := diff(a.Elem(), b.Elem()); d != "" {
			return "*" + d
		}
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf(": nil slice %v != %v", a.IsNil(), b.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": len %d != %d", a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			if string(a.Bytes()) != string(b.Bytes()) {
				return fmt.Sprintf(": %x != %x", clip(a.Bytes()), clip(b.Bytes()))
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i)); d != "" {
				return "." + a.Type().Field(i).Name + d
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf(": nil map %v != %v", a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf(": map len %d != %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf(": no key %q", k)
			}
			if d := diff(a.MapIndex(k), y); d != "" {
				return fmt.Sprintf("[%q]%s", k, d)
			}
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf(": %v != %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf(": %v != %v", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf(": %v != %v", a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf(": %v != %v", a.Float(), b.Float())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf(": %q != %q", clip([]byte(a.String())), clip([]byte(b.String())))
		}
	default:
		return ": cannot compare " + a.Kind().String()
	}
	return ""
}

// getTime also reads unexported fields.
func getTime(v reflect.Value) time.Time {
	if v.CanInterface() {
		return v.Interface().(time.Time)
	}
	return time.Time{}
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}
