package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// Representations that can't be encoded.
type RBadIface struct{ v INone }
type RBadIfaceRepr struct {
	N int
	V INone
}

func (r RBadIface) MarshalAmino() (RBadIfaceRepr, error) { return RBadIfaceRepr{1, r.v}, nil }
func (r *RBadIface) UnmarshalAmino(x RBadIfaceRepr) error {
	r.v = x.V
	return nil
}

type RBadFloat struct{ f float64 }

func (r RBadFloat) MarshalAmino() (struct{ F float64 }, error) { return struct{ F float64 }{r.f}, nil }
func (r *RBadFloat) UnmarshalAmino(x struct{ F float64 }) error {
	r.f = x.F
	return nil
}

type noneImpl struct{ N int }

func (noneImpl) None() {}

// Unregistered but fine otherwise.
type strayA struct{ N int }

func (strayA) A() {}
func (strayA) B() {}

type strayPtr struct{ N int }

func (*strayPtr) A() {}
func (*strayPtr) B() {}

type eeList struct {
	N int
	L []*Leaf `amino:"empty_elements"`
}

type Late struct{ N int }

func (Late) A()    {}
func (Late) B()    {}
func (Late) Late() {}

type ILate interface{ Late() }

// badWorld has the interfaces IfA and IfB registered.
func badWorld(t *rapid.T) *World {
	w := emptyWorld()
	var steps []regStep
	always := pick(t, 2, "always") == 1
	for _, it := range ifaceTypes {
		if it != anyType {
			steps = append(steps, regStep{i: &Iface{T: it, Always: always}})
		}
	}
	for i, ct := range []reflect.Type{tof(CStruct{}), tof(CPtr{}), tof(CStr(""))} {
		steps = append(steps, regStep{c: newConc(ct, ct == tof(CPtr{}), fmt.Sprintf("bad/%d", i))})
	}
	for _, s := range steps {
		w.add(s)
	}
	return w
}

// drawBad draws a value that can't be encoded.
func drawBad(t *rapid.T, js bool) (reflect.Value, string) {
	set := func(rt reflect.Type, x interface{}) reflect.Value {
		v := reflect.New(rt).Elem()
		v.Set(reflect.ValueOf(x))
		return v
	}
	n := 20
	if js {
		n = 15
	}
	switch pick(t, n, "bad") {
	case 0:
		return reflect.New(pickFrom(t, []reflect.Type{tof(1.5), tof(MyF64(0))}, "f64")).Elem(), "float zero"
	case 1:
		v := reflect.New(pickFrom(t, []reflect.Type{tof(1.5), tof(MyF64(0)), tof(float32(0)), tof(MyF32(0))}, "f")).Elem()
		v.SetFloat(pickFrom(t, []float64{1.5, -1, 1e30, 0.25}, "fv"))
		return v, "float"
	case 2:
		switch pick(t, 4, "chan") {
		case 0:
			return set(tof(make(chan int)), make(chan int, 3)), "chan"
		case 1:
			c := make(chan string, 3)
			c <- "x"
			return set(tof(c), c), "chan"
		case 2:
			return set(tof(make(<-chan bool)), make(<-chan bool)), "chan"
		}
		return set(tof(make(chan int)), make(chan int)), "chan"
	case 3:
		return set(tof(func() {}), func() {}), "func"
	case 4:
		return pickFrom(t, []reflect.Value{set(tof(complex(1, 2)), complex(1, 2)), set(tof(complex64(0)), complex64(1i))}, "complex"), "complex"
	case 5:
		return set(tof(uintptr(0)), uintptr(7)), "uintptr"
	case 6:
		x := 5
		return set(tof(unsafe.Pointer(nil)), unsafe.Pointer(&x)), "unsafe pointer"
	case 7:
		return set(inoneTyp, noneImpl{1}), "unregistered interface"
	case 8:
		return set(reflect.TypeOf((*ILate)(nil)).Elem(), Late{3}), "unregistered interface"
	case 9:
		return set(iaType, pickFrom(t, []interface{}{strayA{1}, &strayPtr{2}, &strayA{3}, strayA{}}, "stray")), "unregistered concrete"
	case 10:
		return set(ibType, pickFrom(t, []interface{}{(*CPtr)(nil), (*CStruct)(nil), (*strayPtr)(nil)}, "nilptr")), "nil pointer in interface"
	case 11:
		return set(tof(RBadIface{}), RBadIface{noneImpl{2}}), "representation"
	case 12:
		return set(tof(RBadFloat{}), RBadFloat{pickFrom(t, []float64{0, 1, -7.5}, "rf")}), "representation"
	case 13:
		return set(tof(map[int]string{}), map[int]string{1: "x"}), "map"
	case 14:
		return set(tof(map[MyI8]bool{}), map[MyI8]bool{3: true}), "map"
	case 15:
		return set(tof(map[string]int{}), map[string]int{"a": 1}), "map"
	case 16:
		return set(tof([][][]int{}), [][][]int{{{1}}}), "lists"
	case 17:
		return pickFrom(t, []reflect.Value{set(tof([2][][]string{}), [2][][]string{nil, {{"x"}}}), set(tof([][2][]Leaf{}), [][2][]Leaf{{nil, {Leaf{}}}}),
			set(tof([][][1]bool{}), [][][1]bool{{{true}}})}, "lists"), "lists"
	case 18:
		return set(tof(eeList{}), eeList{1, []*Leaf{{}, nil}}), "nil element"
	default:
		return set(tof([]*eeList{}), []*eeList{{}, {1, []*Leaf{nil}}}), "nil element"
	}
}

// fillBad puts the bad value somewhere into rv.
func fillBad(t *rapid.T, rv reflect.Value, bad reflect.Value, path *bool) {
	rt := rv.Type()
	if rt == bad.Type() {
		if *path || pick(t, 3, "also") == 0 {
			rv.Set(bad)
			*path = false
		}
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if *path || pick(t, 3, "ptr") == 0 {
			rv.Set(reflect.New(rt.Elem()))
			fillBad(t, rv.Elem(), bad, path)
		}
	case reflect.Slice, reflect.Array:
		if rt == tof([]Leaf{}) || rt == tof([]string{}) {
			fillValue(t, rv, newV(emptyWorld(), true))
			return
		}
		if rv.Kind() == reflect.Slice {
			n := pick(t, 4, "n")
			if *path && n == 0 {
				n = 1
			}
			rv.Set(reflect.MakeSlice(rt, n, n))
		}
		if rv.Len() == 0 {
			return
		}
		k := pick(t, rv.Len(), "k")
		for i := 0; i < rv.Len(); i++ {
			p := i == k && *path
			fillBad(t, rv.Index(i), bad, &p)
		}
		*path = false
	case reflect.Map:
		rv.Set(reflect.MakeMap(rt))
		if *path {
			x := reflect.New(rt.Elem()).Elem()
			fillBad(t, x, bad, path)
			rv.SetMapIndex(reflect.ValueOf("k"), x)
		}
	case reflect.Struct:
		k := -1
		if *path {
			for {
				k = pick(t, rv.NumField(), "field")
				if f := rt.Field(k); holds(f.Type, bad.Type()) {
					break
				}
			}
		}
		for i := 0; i < rv.NumField(); i++ {
			p := i == k
			fillBad(t, rv.Field(i), bad, &p)
		}
		*path = false
	default:
		fillValue(t, rv, newV(emptyWorld(), true))
	}
}

// holds reports whether a type drawn by drawPos contains leaf.
func holds(rt, leaf reflect.Type) bool {
	if rt == leaf {
		return true
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map:
		return holds(rt.Elem(), leaf)
	case reflect.Array:
		return rt.Len() > 0 && holds(rt.Elem(), leaf)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if holds(rt.Field(i).Type, leaf) {
				return true
			}
		}
	}
	return false
}

// checkRefused: values that can't be encoded, then normal use of the codec.
func checkRefused(t *rapid.T) {
	js := pick(t, 2, "json") == 1
	w := badWorld(t)
	base := w // without types that hold bad values
	bad, what := drawBad(t, js)
	for js && bad.IsZero() { // an omitempty field leaves it out
		bad, what = drawBad(t, js)
	}
	leaf := bad.Type()
	rt := drawPos(t, leaf, js, false)
	if leaf.Kind() != reflect.Interface && pick(t, 5, "bare") == 4 {
		rt = leaf
	}
	wrapped := pick(t, 4, "wrapped") == 3
	if wrapped { // a registered struct in a registered interface
		ct := reflect.StructOf([]reflect.StructField{{Name: "X", Type: rt}})
		w2 := w.clone()
		w2.cdc = amino.NewCodec()
		ptr := pick(t, 2, "ptr") == 1
		if o := try(func() ([]byte, error) {
			w2.add(regStep{i: &Iface{T: anyType, Always: pick(t, 2, "aalways") == 1}})
			w2.add(regStep{c: newConc(ct, ptr, "bad/struct")})
			return nil, nil
		}); o.failed() {
			// Registration refuses it, and then it can't be in an interface.
			wrapped = false
		} else {
			w = w2
		}
		if wrapped {
			x := reflect.New(ct)
			p := true
			fillBad(t, x.Elem(), bad, &p)
			v := reflect.New(tof(regAny{})).Elem()
			if ptr {
				v.Field(0).Set(x)
			} else {
				v.Field(0).Set(x.Elem())
			}
			bad, leaf = v, v.Type()
			rt = drawPos(t, leaf, js, false)
			what += " in interface"
		}
	}
	rv := reflect.New(rt).Elem()
	path := true
	fillBad(t, rv, bad, &path)
	d := drawn{w, rt, rv}
	// The codec has been used before, or not, and is sealed, or not.
	cdc := w.fresh(nil)
	sealed := pick(t, 4, "sealed") == 3
	if sealed {
		cdc.Seal()
	}
	if pick(t, 2, "used") == 1 {
		useCodec(t, base, cdc, js)
	}
	var probes []probe
	for i, n := 0, 1+pick(t, 3, "probes"); i < n; i++ {
		probes = append(probes, drawProbe(t, base, js))
	}
	// The type itself, with nothing in it, and the type with the leaf alone.
	probes = append(probes, probe{reflect.New(rt).Elem()}, probe{reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Y", Type: leaf}, {Name: "N", Type: tof(0)}})).Elem()})
	ev.count(true, []byte(fmt.Sprintf("%v %v %s %v", rt, js, dump(rv), w)), func() string { return d.String() }, what, fmt.Sprintf("json:%v", js))
	for i, n := 0, 1+pick(t, 3, "times"); i < n; i++ {
		form := pick(t, 3, "form")
		if js {
			form = 3 + pick(t, 2, "jform")
		}
		o := encodeBy(cdc, form, asArg(t, rv))
		if !o.failed() {
			t.Fatalf("%s was encoded (%s) as %x %q\n%v", what, encForms[form], clip(o.bz), clip(o.bz), d)
		}
		if o.err != nil && len(o.bz) > 0 {
			t.Fatalf("%s was refused, but %x was returned or written\n%v", what, o.bz, d)
		}
		// Decoding into such a type may work or not, but must not harm either.
		if pick(t, 3, "decode") == 0 {
			p := reflect.New(rt)
			try(func() ([]byte, error) { return nil, cdc.UnmarshalBinaryBare(soup(t), p.Interface()) })
		}
	}
	fresh := w.fresh(nil)
	for _, p := range probes {
		if s := p.compare(cdc, fresh); s != "" {
			t.Fatalf("after %s was refused: %s\n%v", what, s, d)
		}
	}
	// Registration still works as well.
	reg := try(func() ([]byte, error) {
		cdc.RegisterInterface((*ILate)(nil), nil)
		cdc.RegisterConcrete(Late{}, "bad/late", nil)
		return nil, nil
	})
	if sealed {
		if reg.panik == nil {
			t.Fatalf("registering on a sealed codec after %s was refused: %v\n%v", what, reg, d)
		}
		return
	}
	if strings.HasPrefix(what, "unregistered interface") {
		return // the interface or the concrete type may have been used
	}
	if reg.failed() {
		t.Fatalf("registering after %s was refused: %v\n%v", what, reg, d)
	}
	o := marshalBin(cdc, struct{ LateProbe ILate }{Late{5}})
	_, pb := disfix("bad/late")
	want := append([]byte{10, 6}, append(pb[:], 8, 5)...)
	if o.failed() || !bytes.Equal(o.bz, want) {
		t.Fatalf("a type registered after %s was refused is encoded as %v, want %x\n%v", what, o, want, d)
	}
}

// probe is a value whose encoding must not depend on the codec's history.
type probe struct{ v reflect.Value }

func drawProbe(t *rapid.T, w *World, js bool) probe {
	if pick(t, 3, "ifprobe") == 0 {
		type ifs struct {
			A IA
			B []IB
			C IAB
		}
		v := reflect.New(tof(ifs{})).Elem()
		fillValue(t, v, newV(w, false))
		return probe{v}
	}
	rt := drawTop(t, tctx{w: emptyWorld(), depth: 2})
	return probe{drawValue(t, rt, newV(emptyWorld(), false))}
}

func (p probe) compare(used, fresh *amino.Codec) string {
	x := p.v.Addr().Interface()
	for form := range encForms {
		a, b := encodeBy(used, form, x), encodeBy(fresh, form, x)
		if a.failed() != b.failed() || !a.failed() && !bytes.Equal(a.bz, b.bz) {
			return fmt.Sprintf("%s encoding of %v %s: %v, on a fresh codec: %v", encForms[form], p.v.Type(), dump(p.v), a, b)
		}
		if a.failed() || form == 2 || form == 4 {
			continue
		}
		dec := func(c *amino.Codec) (reflect.Value, outcome) {
			v := reflect.New(p.v.Type())
			o := try(func() ([]byte, error) {
				switch form {
				case 0:
					return nil, c.UnmarshalBinaryBare(a.bz, v.Interface())
				case 1:
					return nil, c.UnmarshalBinaryLengthPrefixed(a.bz, v.Interface())
				}
				return nil, c.UnmarshalJSON(a.bz, v.Interface())
			})
			return v.Elem(), o
		}
		va, oa := dec(used)
		vb, ob := dec(fresh)
		if oa.failed() != ob.failed() {
			return fmt.Sprintf("decoding %x into %v: %v, on a fresh codec: %v", a.bz, p.v.Type(), oa, ob)
		}
		if !oa.failed() {
			if s := same(va, vb, ""); s != "" {
				return fmt.Sprintf("decoding %x into %v differs from a fresh codec at %s", a.bz, p.v.Type(), s)
			}
		}
	}
	return ""
}

func TestC24(t *testing.T) {
	run(t, "refused", 30, checkRefused)
	run(t, "decode", 10, checkRefusedDecoding)
}

type (
	gAny struct{ X IA }
	gU64 struct {
		X uint64 `binary:"fixed64"`
	}
	gI32 struct {
		X int32 `binary:"fixed32"`
	}
	gF64 struct {
		X float64 `amino:"unsafe"`
	}
	gF32 struct {
		X float32 `amino:"unsafe"`
	}
	gF64s struct {
		X []float64 `amino:"unsafe"`
	}
	gF32s struct {
		X []float32 `amino:"unsafe"`
	}
	gMapped struct{ X map[string]string }
	gMapInt struct{ X map[string]int }
)

// checkRefusedDecoding: bytes and documents for a type, decoded into one of
// the same shape that has a kind without a form in place of a good one.
func checkRefusedDecoding(t *rapid.T) {
	js := pick(t, 2, "json") == 1
	goods := []reflect.Type{tof(gU64{}), tof(gI32{}), tof(gF64{}), tof(gF32{}), tof(gF64s{}), tof(gF32s{}), tof(struct{ X int }{}), tof(struct{ X bool }{}),
		tof(struct{ X string }{}), tof(struct{ X []byte }{}), tof(struct{ X Leaf }{}), tof(struct{ X []string }{}), tof(struct{ X []int }{}), tof(struct{ X *Leaf }{}), tof(gAny{})}
	if js {
		goods = append(goods, tof(gMapped{}), tof(gMapInt{}), tof(gMapped{}), tof(gMapInt{}))
	}
	good := pickFrom(t, goods, "good")
	bads := []reflect.Type{tof(1.5), tof(float32(0)), tof(MyF64(0)), tof(MyF32(0)), tof(make(chan int)), tof(make(<-chan bool)), tof(func() {}), tof(func(int) error { return nil }),
		tof(complex(1, 2)), tof(complex64(0)), tof(uintptr(0)), tof(unsafe.Pointer(nil)), tof(map[int]string{}), tof(map[MyI8]bool{}), tof(map[uint64]int{}), tof(map[bool]string{}), inoneTyp}
	if !js {
		bads = append(bads, tof(map[string]int{}), tof(map[string]string{}), tof(map[string][]byte{}))
	}
	same := good.Field(0).Type // often the one that is as near as can be
	bad := pickFrom(t, bads, "kind")
	switch {
	case good == tof(gMapped{}) && pick(t, 3, "near") > 0:
		bad = pickFrom(t, []reflect.Type{tof(map[int]string{}), tof(map[MyI8]string{}), tof(map[[1]byte]string{}), tof(map[interface{}]string{})}, "nearmap")
	case good == tof(gMapInt{}) && pick(t, 3, "near") > 0:
		bad = pickFrom(t, []reflect.Type{tof(map[int]int{}), tof(map[uint8]int{}), tof(map[float64]int{})}, "nearmap")
	case good.Field(0).Tag.Get("amino") == "unsafe" && pick(t, 3, "near") > 0:
		bad = same
	case same.Kind() == reflect.Slice && pick(t, 2, "list") == 1:
		bad = reflect.SliceOf(bad)
	case pick(t, 4, "ptr") == 0 && bad.Kind() != reflect.Interface:
		bad = reflect.PtrTo(bad)
	}
	if good == tof(gAny{}) {
		bad = same
	}
	badT := reflect.StructOf([]reflect.StructField{{Name: "X", Type: bad}})
	w := badWorld(t)
	target := w
	if good == tof(gAny{}) { // the same, but its interface isn't registered
		target = emptyWorld()
		for _, c := range w.concs {
			target.add(regStep{c: c})
		}
	}
	rt := drawPos(t, good, js, false)
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, good, nil, func() reflect.Value {
		v := reflect.New(good).Elem()
		if pick(t, 6, "zero") > 0 {
			fillValue(t, v, newV(w, js))
		}
		return v
	})
	if topNil(rv) {
		return
	}
	form := pick(t, 2, "form")
	if js {
		form = 3
	}
	cdc := w.fresh(nil)
	o := encodeBy(cdc, form, asArg(t, rv))
	if o.failed() {
		return // C02 and C14
	}
	back := reflect.New(rt)
	switch form {
	case 0:
		must(cdc.UnmarshalBinaryBare(o.bz, back.Interface()))
	case 1:
		must(cdc.UnmarshalBinaryLengthPrefixed(o.bz, back.Interface()))
	default:
		must(cdc.UnmarshalJSON(o.bz, back.Interface()))
	}
	there := holdsNonzero(back.Elem(), good)
	btop := evo{}.mapType(rt, good, badT)
	ev.count(there, []byte(fmt.Sprintf("%v %v %x", btop, form, o.bz)), func() string { return fmt.Sprintf("%v from %q", btop, clip(o.bz)) }, "from:"+same.String(), "into:"+bad.String(), fmt.Sprintf("json:%v", js))
	if !there {
		return
	}
	cdc = target.fresh(nil)
	p := reflect.New(btop)
	for i, n := 0, 1+pick(t, 2, "times"); i < n; i++ {
		do := try(func() ([]byte, error) {
			switch form {
			case 0:
				return nil, cdc.UnmarshalBinaryBare(o.bz, p.Interface())
			case 1:
				return nil, cdc.UnmarshalBinaryLengthPrefixed(o.bz, p.Interface())
			}
			return nil, cdc.UnmarshalJSON(o.bz, p.Interface())
		})
		if !do.failed() {
			t.Fatalf("a %v was decoded from what was encoded for a %v: %s\n from %x %q\n%v", bad, same, dump(p.Elem()), clip(o.bz), clip(o.bz), drawn{w, rt, rv})
		}
	}
	fresh := target.fresh(nil)
	base := emptyWorld()
	for i, n := 0, 1+pick(t, 2, "probes"); i < n; i++ {
		if s := drawProbe(t, base, js).compare(cdc, fresh); s != "" {
			t.Fatalf("after decoding into %v was refused: %s\n%v", bad, s, drawn{w, rt, rv})
		}
	}
}

// holdsNonzero reports whether rv holds a value of type leaf that is more than
// zeros.
func holdsNonzero(rv reflect.Value, leaf reflect.Type) bool {
	if rv.Type() == leaf {
		x := rv.Field(0)
		switch x.Kind() {
		case reflect.Map:
			return x.Len() > 0
		case reflect.Slice: // [""] and an empty packed list are the same bytes
			for i := 0; i < x.Len(); i++ {
				if !x.Index(i).IsZero() {
					return true
				}
			}
			return false
		}
		return !x.IsZero() && !(x.Kind() == reflect.Ptr && x.Elem().IsZero())
	}
	switch rv.Kind() {
	case reflect.Ptr:
		return !rv.IsNil() && holdsNonzero(rv.Elem(), leaf)
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if holdsNonzero(rv.Index(i), leaf) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			if holdsNonzero(rv.MapIndex(k), leaf) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" && holdsNonzero(rv.Field(i), leaf) {
				return true
			}
		}
	}
	return false
}
