package harness

import (
	"reflect"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- other representations of the same value

// varier copies values; with t set it varies what must not matter.
type varier struct {
	t        *rapid.T
	w        *World
	nilEmpty bool // nil and empty slices may be exchanged
	keepOmit bool // keep what decides about omitempty: ignored fields, time zones
}

func (v *varier) flip(label string) bool { return v.t != nil && pick(v.t, 2, label) == 1 }

// deepen returns a type that only differs in the depth of its pointers.
func (v *varier) deepen(rt reflect.Type) reflect.Type {
	if rt.Kind() == reflect.Ptr {
		rt = reflect.PtrTo(v.deepen(rt.Elem()))
		for i := 0; i < 2 && v.flip("deeper"); i++ {
			rt = reflect.PtrTo(rt)
		}
		return rt
	}
	if rt.Name() != "" {
		return rt
	}
	switch rt.Kind() {
	case reflect.Slice:
		return reflect.SliceOf(v.deepen(rt.Elem()))
	case reflect.Array:
		return reflect.ArrayOf(rt.Len(), v.deepen(rt.Elem()))
	case reflect.Map:
		return reflect.MapOf(rt.Key(), v.deepen(rt.Elem()))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath == "" && f.Tag.Get("json") != "-" {
				f.Type = v.deepen(f.Type)
			}
			f.Index, f.Offset = nil, 0
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return rt
}

// copyTo copies src to dst, whose types are the same up to pointer depth.
func (v *varier) copyTo(dst, src reflect.Value) {
	sv, isNil := deref(src)
	if src.Kind() == reflect.Ptr && isNil {
		// nil at any depth
		for first := true; dst.Kind() == reflect.Ptr && dst.Type().Elem().Kind() == reflect.Ptr; first = false {
			if v.keepOmit && first && src.IsNil() || !(v.keepOmit && first) && !v.flip("nildepth") {
				break
			}
			dst.Set(reflect.New(dst.Type().Elem()))
			dst = dst.Elem()
		}
		return
	}
	dst = alloc(dst)
	rt := dst.Type()
	if rt == timeType {
		t := sv.Interface().(time.Time)
		if !v.keepOmit && v.flip("zone") {
			t = t.Round(0).In(pickFrom(v.t, zones, "zone"))
		}
		dst.Set(reflect.ValueOf(t))
		return
	}
	if rt == tof(RStruct{}) {
		r := sv.Interface().(RStruct)
		r.l = append([]uint16(nil), r.l...)
		dst.Set(reflect.ValueOf(r))
		return
	}
	if rt == tof(JBoth{}) {
		dst.Set(sv)
		return
	}
	if rt == tof(CRepr{}) {
		r := sv.Interface().(CRepr)
		r.l = append([]uint16(nil), r.l...)
		dst.Set(reflect.ValueOf(r))
		return
	}
	switch rt.Kind() {
	case reflect.Slice:
		if sv.Len() == 0 {
			if sv.IsNil() == (v.nilEmpty && v.flip("nilempty")) {
				dst.Set(reflect.MakeSlice(rt, 0, 0))
			}
			return
		}
		extra := 0
		if v.flip("cap") {
			extra = 3
		}
		s := reflect.MakeSlice(rt, sv.Len()+extra, sv.Len()+extra).Slice(0, sv.Len())
		for i := 0; i < sv.Len(); i++ {
			v.copyTo(s.Index(i), sv.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < sv.Len(); i++ {
			v.copyTo(dst.Index(i), sv.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			if sf.PkgPath != "" || sf.Tag.Get("json") == "-" {
				if v.keepOmit {
					if sf.PkgPath != "" {
						x := reflect.New(sv.Type()).Elem()
						x.Set(sv)
						settable(dst.Field(i)).Set(settable(x.Field(i)))
					} else {
						dst.Field(i).Set(sv.Field(i))
					}
				} else if v.flip("junk") {
					if sf.PkgPath != "" {
						fillJunk(settable(dst.Field(i)))
					} else {
						fillJunk(dst.Field(i))
					}
				}
				continue
			}
			v.copyTo(dst.Field(i), sv.Field(i))
		}
	case reflect.Interface:
		if sv.IsNil() {
			return
		}
		cv, _ := deref(sv.Elem())
		n := reflect.New(cv.Type())
		v.copyTo(n.Elem(), cv)
		byPtr := sv.Elem().Kind() == reflect.Ptr
		if v.flip("byptr") {
			byPtr = !byPtr
		}
		if !byPtr && !cv.Type().Implements(rt) {
			byPtr = true
		}
		if byPtr {
			dst.Set(n)
		} else {
			dst.Set(n.Elem())
		}
	case reflect.Map:
		if sv.IsNil() {
			return
		}
		m := reflect.MakeMap(rt)
		keys := sv.MapKeys()
		if v.flip("maporder") {
			for i := range keys {
				j := len(keys) - 1 - i
				if i < j {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			e := reflect.New(rt.Elem()).Elem()
			v.copyTo(e, sv.MapIndex(k))
			m.SetMapIndex(k, e)
		}
		dst.Set(m)
	default:
		dst.Set(sv)
	}
}

// clone makes a deep copy (of exported data).
func clone(rv reflect.Value) reflect.Value {
	out := reflect.New(rv.Type()).Elem()
	(&varier{}).copyTo(out, rv)
	return out
}

// ---------------------------------------------------------------- small changes of a value

// mutate changes rv, which must be settable and unshared, somewhere.
func mutate(t *rapid.T, rv reflect.Value, c vctx, depth int) {
	redraw := func() {
		rv.SetZero()
		fillValue(t, rv, c)
	}
	if depth > 6 || pick(t, 5, "here") == 4 {
		redraw()
		return
	}
	rt := rv.Type()
	if rt == timeType || rt == tof(RStruct{}) || rt == tof(CRepr{}) || rt == tof(JBoth{}) {
		redraw()
		return
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if rv.IsNil() || pick(t, 4, "ptr") == 0 {
			redraw()
			return
		}
		mutate(t, rv.Elem(), c, depth+1)
	case reflect.Slice:
		n := rv.Len()
		switch k := pick(t, 6, "slice"); {
		case n == 0 || k == 0:
			redraw()
		case k == 1: // one less
			i := pick(t, n, "i")
			s := reflect.AppendSlice(rv.Slice3(0, i, i), rv.Slice(i+1, n))
			rv.Set(s)
		case k == 2: // one more, zero
			rv.Set(reflect.Append(rv.Slice3(0, n, n), reflect.Zero(rt.Elem())))
			if c.ee {
				fillElem(t, rv.Index(n), c)
			}
		case k == 3 && n > 1: // swap
			i, j := pick(t, n, "i"), pick(t, n, "j")
			reflect.Swapper(rv.Interface())(i, j)
		default:
			mutateElem(t, rv.Index(pick(t, n, "i")), c, depth)
		}
	case reflect.Array:
		if rv.Len() == 0 {
			return
		}
		mutateElem(t, rv.Index(pick(t, rv.Len(), "i")), c, depth)
	case reflect.Struct:
		fs := fieldsOf(rt)
		if len(fs) == 0 {
			return
		}
		f := pickFrom(t, fs, "f")
		d := c
		d.ee = f.o.ee
		mutate(t, rv.Field(f.idx), d, depth+1)
	case reflect.Interface:
		if rv.IsNil() || rv.Elem().Kind() != reflect.Ptr || pick(t, 3, "if") == 0 {
			redraw()
			return
		}
		mutate(t, rv.Elem().Elem(), c, depth+1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch pick(t, 4, "int") {
		case 0:
			rv.SetInt(-rv.Int())
		case 1:
			sh := uint(64 - rt.Bits())
			rv.SetInt((rv.Int() + 1) << sh >> sh)
		case 2:
			sh := uint(64 - rt.Bits())
			rv.SetInt(int64(int32(rv.Int())) << sh >> sh)
		default:
			redraw()
		}
	case reflect.String:
		if rv.Len() > 0 && pick(t, 2, "str") == 1 {
			rv.SetString(rv.String() + "\x00")
			return
		}
		redraw()
	default:
		redraw()
	}
}

func mutateElem(t *rapid.T, rv reflect.Value, c vctx, depth int) {
	mutate(t, rv, c, depth+1)
	if c.ee && rv.Kind() == reflect.Ptr {
		for p := rv; p.Kind() == reflect.Ptr; p = p.Elem() {
			if p.IsNil() {
				rv.SetZero()
				fillElem(t, rv, c)
				return
			}
		}
	}
}
