package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"
)

// ---------------------------------------------------------------- reference binary decoder
//
// An independent reading of the wire rules, as strict as they are documented:
// it says for any bytes whether they are an encoding of the type, and of what.

type decErr string

func (e decErr) Error() string { return string(e) }

func bad(format string, a ...interface{}) { panic(decErr(fmt.Sprintf(format, a...))) }

// decTop is the reference for UnmarshalBinaryBare into a fresh variable.
func (w *World) decTop(bz []byte, rt reflect.Type) (out reflect.Value, err error) {
	out = reflect.New(rt).Elem()
	defer func() {
		switch e := recover().(type) {
		case nil:
		case decErr:
			err = e
		case error:
			if e != errRepr {
				panic(e)
			}
			err = e
		default:
			panic(e)
		}
	}()
	dst := alloc(out)
	T := dst.Type()
	if c := w.byT[T]; c != nil {
		if len(bz) < 4 || string(bz[:4]) != string(c.Prefix[:]) {
			bad("wrong prefix bytes")
		}
		bz = bz[4:]
	}
	if n := w.decImplicit(bz, dst, opts{num: 1}); n != len(bz) {
		bad("%d bytes left over", len(bz)-n)
	}
	return out, nil
}

func alloc(rv reflect.Value) reflect.Value {
	for rv.Kind() == reflect.Ptr {
		rv.Set(reflect.New(rv.Type().Elem()))
		rv = rv.Elem()
	}
	return rv
}

// decImplicit decodes a top-level value: a struct, a list of structs, an
// interface, or the only field of an implicit struct.
func (w *World) decImplicit(bz []byte, dst reflect.Value, o opts) int {
	T := dst.Type()
	if isStructOrStructs(T) || T.Kind() == reflect.Interface {
		return w.dec(bz, dst, o, true)
	}
	if len(bz) == 0 {
		if k := T.Kind(); k == reflect.Float32 || k == reflect.Float64 {
			bad("float")
		}
		// The default value.
		zero := key(1, wireType(T, opts{}))
		zero = append(zero, 0)
		w.decImplicit(zero, dst, o)
		return 0
	}
	num, wt, n := decKey(bz)
	if num != 1 || wt != wireType(T, opts{}) {
		bad("wrong key of an implicit struct")
	}
	return n + w.dec(bz[n:], dst, o, wt != wBytes)
}

func decUvarint(bz []byte) (uint64, int) {
	u, n := binary.Uvarint(bz)
	if n <= 0 {
		bad("bad uvarint")
	}
	return u, n
}

func decKey(bz []byte) (num uint64, wt int, n int) {
	u, n := decUvarint(bz)
	if u>>3 > 1<<29-1 {
		bad("field number too large")
	}
	return u >> 3, int(u & 7), n
}

// decLen reads a length-delimited chunk.
func decLen(bz []byte) (c []byte, n int) {
	u, n := decUvarint(bz)
	if u > uint64(len(bz)-n) {
		bad("length %d, but only %d bytes", u, len(bz)-n)
	}
	return bz[n : n+int(u)], n + int(u)
}

func need(bz []byte, n int) {
	if len(bz) < n {
		bad("want %d bytes", n)
	}
}

// dec decodes a non-pointer value and returns how many bytes that took.
func (w *World) dec(bz []byte, dst reflect.Value, o opts, bare bool) int {
	rt := dst.Type()
	if hasUnmarshalAmino(rt) {
		m := dst.Addr().MethodByName("UnmarshalAmino")
		rep := reflect.New(m.Type().In(0)).Elem()
		n := w.dec(bz, rep, o, bare)
		if e := m.Call([]reflect.Value{rep})[0]; !e.IsNil() {
			panic(e.Interface().(error))
		}
		return n
	}
	le := binary.LittleEndian
	whole := func(f func(c []byte) int) int {
		c, n := bz, len(bz)
		if !bare {
			c, n = decLen(bz)
		}
		if m := f(c); m != len(c) {
			if bare {
				return m
			}
			bad("%d bytes left over", len(c)-m)
		}
		return n
	}
	switch rt.Kind() {
	case reflect.Bool:
		need(bz, 1)
		if bz[0] > 1 {
			bad("bool")
		}
		dst.SetBool(bz[0] == 1)
		return 1
	case reflect.Int64, reflect.Int32, reflect.Int:
		if o.f64 && rt.Kind() == reflect.Int64 {
			need(bz, 8)
			dst.SetInt(int64(le.Uint64(bz)))
			return 8
		}
		if o.f32 && rt.Kind() == reflect.Int32 {
			need(bz, 4)
			dst.SetInt(int64(int32(le.Uint32(bz))))
			return 4
		}
		u, n := decUvarint(bz)
		if dst.OverflowInt(int64(u)) {
			bad("overflow")
		}
		dst.SetInt(int64(u))
		return n
	case reflect.Int8, reflect.Int16:
		u, n := decUvarint(bz)
		i := int64(u>>1) ^ -int64(u&1)
		if dst.OverflowInt(i) {
			bad("overflow")
		}
		dst.SetInt(i)
		return n
	case reflect.Uint64, reflect.Uint32, reflect.Uint, reflect.Uint16, reflect.Uint8:
		if o.f64 && rt.Kind() == reflect.Uint64 {
			need(bz, 8)
			dst.SetUint(le.Uint64(bz))
			return 8
		}
		if o.f32 && rt.Kind() == reflect.Uint32 {
			need(bz, 4)
			dst.SetUint(uint64(le.Uint32(bz)))
			return 4
		}
		u, n := decUvarint(bz)
		if dst.OverflowUint(u) {
			bad("overflow")
		}
		dst.SetUint(u)
		return n
	case reflect.Float64:
		if !o.unsafe {
			bad("float")
		}
		need(bz, 8)
		dst.SetFloat(math.Float64frombits(le.Uint64(bz)))
		return 8
	case reflect.Float32:
		if !o.unsafe {
			bad("float")
		}
		need(bz, 4)
		dst.SetFloat(float64(math.Float32frombits(le.Uint32(bz))))
		return 4
	case reflect.String:
		c, n := decLen(bz)
		dst.SetString(string(c))
		return n
	case reflect.Struct:
		return whole(func(c []byte) int {
			if rt == timeType {
				return decTimeRef(c, dst)
			}
			return w.decStruct(c, dst)
		})
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			c, n := decLen(bz)
			if rt.Kind() == reflect.Array {
				if len(c) != rt.Len() {
					bad("array length")
				}
				for i, b := range c {
					dst.Index(i).SetUint(uint64(b))
				}
			} else if len(c) > 0 {
				s := reflect.MakeSlice(rt, len(c), len(c))
				copy(s.Bytes(), c)
				dst.Set(s)
			}
			return n
		}
		return whole(func(c []byte) int { return w.decList(c, dst, o, bare) })
	case reflect.Interface:
		return whole(func(c []byte) int { return w.decIface(c, dst, o, bare) })
	}
	panic("no reference decoder for " + rt.String())
}

func decTimeRef(c []byte, dst reflect.Value) int {
	var sec, ns uint64
	n := 0
	if n < len(c) {
		num, wt, k := decKey(c)
		if wt != wVarint || num != 1 && num != 2 {
			bad("time field")
		}
		if num == 1 {
			u, m := decUvarint(c[k:])
			sec, n = u, k+m
			if int64(sec) < minSec || int64(sec) > maxSec {
				bad("seconds")
			}
		}
	}
	if n < len(c) {
		num, wt, k := decKey(c[n:])
		if wt != wVarint || num != 2 {
			bad("time field")
		}
		u, m := decUvarint(c[n+k:])
		ns, n = u, n+k+m
		if ns > 999999999 {
			bad("nanoseconds")
		}
	}
	dst.Set(reflect.ValueOf(time.Unix(int64(sec), int64(ns)).UTC()))
	return n
}

func (w *World) decStruct(c []byte, dst reflect.Value) (n int) {
	var last uint64
	fs := fieldsOf(dst.Type())
	for _, f := range fs {
		fv := dst.Field(f.idx)
		if n == len(c) {
			setAbsent(fv)
			continue
		}
		if unpackedField(f.t, f.o) {
			if hasUnmarshalAmino(f.t) {
				n += w.dec(c[n:], fv, f.o, true)
			} else {
				n += w.decList(c[n:], fv, f.o, true)
			}
			continue
		}
		num, wt, k := decKey(c[n:])
		if num > f.num {
			setAbsent(fv)
			continue
		}
		if num <= last || num != f.num {
			bad("field %d out of order", num)
		}
		if wt != wireType(derefT(f.t), f.o) {
			bad("wire type")
		}
		last = num
		n += k
		n += w.dec(c[n:], alloc(fv), f.o, false)
	}
	for n < len(c) {
		num, wt, k := decKey(c[n:])
		if num < last || num == last && num <= uint64(len(fs)) {
			bad("field %d out of order", num)
		}
		if num == 0 {
			bad("field 0")
		}
		last = num
		n += k
		switch wt {
		case wVarint:
			_, m := decUvarint(c[n:])
			n += m
		case w8:
			need(c[n:], 8)
			n += 8
		case w4:
			need(c[n:], 4)
			n += 4
		case wBytes:
			_, m := decLen(c[n:])
			n += m
		default:
			bad("wire type")
		}
	}
	return n
}

// decList: more tells that other fields may follow (a list in a struct field).
func (w *World) decList(c []byte, dst reflect.Value, o opts, more bool) (n int) {
	rt := dst.Type()
	et := rt.Elem()
	bt := derefT(et)
	var elems []reflect.Value
	max := -1
	if rt.Kind() == reflect.Array {
		max = rt.Len()
	}
	if wireType(bt, o) != wBytes {
		for n < len(c) {
			e := reflect.New(et).Elem()
			n += w.dec(c[n:], alloc(e), o, false)
			if et.Kind() == reflect.Ptr && isDef(e) {
				e = reflect.Zero(et)
			}
			elems = append(elems, e)
		}
	} else {
		ptrStruct := et.Kind() == reflect.Ptr && bt.Kind() == reflect.Struct
		for n < len(c) {
			num, wt, k := decKey(c[n:])
			if num < o.num {
				bad("field %d out of order", num)
			}
			if num > o.num {
				if !more {
					bad("field %d in a list", num)
				}
				break
			}
			if wt != wBytes {
				bad("wire type")
			}
			n += k
			e := reflect.New(et).Elem()
			if n < len(c) && c[n] == 0 && !(ptrStruct && o.ee) {
				n++
				setAbsent(e)
			} else {
				eo := o
				eo.num = 1
				n += w.dec(c[n:], alloc(e), eo, false)
			}
			elems = append(elems, e)
		}
	}
	if max >= 0 {
		if len(elems) != max {
			bad("array length")
		}
		for i, e := range elems {
			dst.Index(i).Set(e)
		}
		return n
	}
	if len(elems) > 0 {
		s := reflect.MakeSlice(rt, len(elems), len(elems))
		for i, e := range elems {
			s.Index(i).Set(e)
		}
		dst.Set(s)
	}
	return n
}

var errDec = errors.New("decode")

// resolve finds the concrete type that the start of an interface value names.
func (w *World) resolve(c []byte, it reflect.Type) (*Conc, int) {
	need(c, 4)
	if c[0] == 0 {
		need(c, 8)
		for _, x := range w.concs {
			if string(x.Disamb[:]) == string(c[1:4]) && string(x.Prefix[:]) == string(c[4:8]) {
				return x, 8
			}
		}
		bad("unknown disambiguation bytes")
	}
	var found *Conc
	for _, x := range w.implementers(it) {
		if string(x.Prefix[:]) == string(c[:4]) {
			if found != nil {
				bad("ambiguous prefix bytes")
			}
			found = x
		}
	}
	if found == nil {
		bad("unknown prefix bytes")
	}
	return found, 4
}

func (w *World) decIface(c []byte, dst reflect.Value, o opts, top bool) int {
	if len(c) == 0 && !top {
		return 0
	}
	x, n := w.resolve(c, dst.Type())
	if !x.form().Implements(dst.Type()) {
		bad("does not implement")
	}
	v := reflect.New(x.T)
	if top {
		n += w.decImplicit(c[n:], v.Elem(), o)
	} else {
		n += w.dec(c[n:], v.Elem(), o, true)
	}
	if n != len(c) {
		bad("bytes left over in an interface")
	}
	if x.Ptr {
		dst.Set(v)
	} else {
		dst.Set(v.Elem())
	}
	return n
}
