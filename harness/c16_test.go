package harness

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- types with their own DeepCopy

// DCVal: value receiver, value result. Copies are marked.
type DCVal struct {
	N    int
	S    []int
	gen  int
	Free *int
}

func (d DCVal) DeepCopy() DCVal {
	o := DCVal{N: d.N, gen: d.gen + 1}
	if d.S != nil {
		o.S = append([]int{}, d.S...)
	}
	if d.Free != nil {
		x := *d.Free
		o.Free = &x
	}
	return o
}

// DCPtr: pointer receiver, pointer result.
type DCPtr struct {
	N   int
	gen int
	M   map[string]int
}

func (d *DCPtr) DeepCopy() *DCPtr {
	o := &DCPtr{N: d.N, gen: d.gen + 1}
	if d.M != nil {
		o.M = map[string]int{}
		for k, v := range d.M {
			o.M[k] = v
		}
	}
	return o
}

// DCMix: pointer receiver, value result.
type DCMix struct {
	N   int
	gen int
}

func (d *DCMix) DeepCopy() DCMix { return DCMix{d.N, d.gen + 1} }

// DCInt is a number with DeepCopy.
type DCInt int

func (d DCInt) DeepCopy() DCInt { return d + 1000 }

// DCSlice is a slice with DeepCopy.
type DCSlice []int

func (d DCSlice) DeepCopy() DCSlice { return append(append(DCSlice{}, d...), -1) }

// DCOdd has a method of that name that can't be used.
type DCOdd struct {
	N int
	L []string
}

func (d DCOdd) DeepCopy(x int) DCOdd { panic("never") }

// DCOther returns another type: not usable.
type DCOther struct {
	N int
	L []string
}

func (d DCOther) DeepCopy() string { panic("never") }

// Copier has DeepCopy in an interface.
type Copier interface{ DeepCopy() Copier }

type CopierA struct {
	N   int
	P   *int
	gen int
}

func (c *CopierA) DeepCopy() Copier {
	o := &CopierA{N: c.N, gen: c.gen + 1}
	if c.P != nil {
		x := *c.P
		o.P = &x
	}
	return o
}

type CopierB struct{ N int }

func (c CopierB) DeepCopy() Copier { return CopierB{c.N + 1000} }

// ACPair copies through its representation, which drops the scratch field.
type ACPair struct {
	A       string
	L       []int
	Scratch int
	n       int
}
type ACRepr struct {
	A string
	L []int
	N int
}

func (a ACPair) MarshalAmino() (ACRepr, error) {
	return ACRepr{a.A, append([]int(nil), a.L...), a.n}, nil
}
func (a *ACPair) UnmarshalAmino(r ACRepr) error {
	*a = ACPair{A: r.A, L: r.L, n: r.N + 1}
	return nil
}

// PlainUnexp has unexported state that isn't copied.
type PlainUnexp struct {
	A int
	b []int
	C []string
	d *int
}

type (
	keyStruct struct {
		A int
		B string
	}
	CopyEmb struct {
		Inner
		*Leaf
		DCVal2
		M map[string]*Leaf
	}
	DCVal2 struct {
		X DCVal
		Y *DCVal
		Z []DCVal
	}
	CopyTree struct {
		V    int
		Kids []*CopyTree
		M    map[string]*CopyTree
		I    interface{}
	}
)

var (
	copierType = tof((*Copier)(nil)).Elem()
	emptyIface = tof((*interface{})(nil)).Elem()
	errType    = tof((*error)(nil)).Elem()

	copyLeaves = []reflect.Type{tof(0), tof(""), tof(false), tof(int8(0)), tof(uint64(0)), tof(1.5), tof(float32(0)), tof(MyStr("")), tof([]byte{}), tof([4]byte{}), tof(MyBytes{}),
		timeType, tof(MyI64s{}), tof([]string{}), tof([3]string{}), tof(MyF64(0)), tof(uintptrOK(0)), tof([]bool{}), tof([]float64{}), tof([2]uint16{})}
	copyStatics = []reflect.Type{tof(DCVal{}), tof(DCPtr{}), tof(DCMix{}), tof(DCInt(0)), tof(DCSlice{}), tof(DCOdd{}), tof(DCOther{}), tof(CopierA{}), tof(CopierB{}), tof(ACPair{}),
		tof(PlainUnexp{}), tof(Inner{}), tof(Leaf{}), tof(Emb{}), tof(Tree{}), tof(CopyTree{}), tof(CopyEmb{}), tof(RInt(0)), tof(RStruct{}), tof(RMid{}), tof(RBytes{}), tof(Tagged{}), tof(IfWrap{}), tof(RFailS{}), tof(RFail(0))}
	copyIfaces = []reflect.Type{emptyIface, copierType, anyType, iaType, ibType, copierType}
	keyTypes   = []reflect.Type{tof(""), tof(0), tof(MyStr("")), tof(keyStruct{}), tof([2]int8{}), tof(true), tof(uint8(0)), tof(float64(0))}
)

type uintptrOK uint32

func drawCopyType(t *rapid.T, depth int) reflect.Type {
	if depth <= 0 {
		return pickFrom(t, copyLeaves, "leaf")
	}
	switch pick(t, 9, "ck") {
	case 0:
		return pickFrom(t, copyLeaves, "leaf")
	case 1, 2:
		return reflect.PtrTo(drawCopyType(t, depth-1))
	case 3:
		return reflect.SliceOf(drawCopyType(t, depth-1))
	case 4:
		return reflect.ArrayOf(pick(t, 4, "alen"), drawCopyType(t, depth-1))
	case 5:
		return reflect.MapOf(pickFrom(t, keyTypes, "key"), drawCopyType(t, depth-1))
	case 6:
		return pickFrom(t, copyIfaces, "iface")
	case 7:
		var fs []reflect.StructField
		for i, n := 0, pick(t, 5, "nf"); i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: drawCopyType(t, depth-1)}
			if pick(t, 6, "unexp") == 5 {
				f.Name, f.PkgPath = fmt.Sprintf("f%d", i), pkgPath
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	default:
		if pick(t, 6, "odd") == 5 {
			return pickFrom(t, copyNotPairs, "notpair")
		}
		return pickFrom(t, copyStatics, "static")
	}
}

// fillCopy fills anything, unexported fields included.
func fillCopy(t *rapid.T, rv reflect.Value, depth int, budget *int) {
	*budget--
	low := depth <= 0 || *budget <= 0
	rt := rv.Type()
	if rt == timeType {
		rv.Set(reflect.ValueOf(drawTime(t)))
		return
	}
	if rt == tof(RFail(0)) || rt == tof(RFailS{}) {
		x := pickFrom(t, []int64{0, 1, -1, 13, 17, 1 << 20}, "rfail")
		if rt.Kind() == reflect.Struct {
			settable(rv.Field(0)).SetInt(x)
		} else {
			rv.SetInt(x)
		}
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		rv.SetBool(pick(t, 2, "b") == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(drawInt(t, rt.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(drawUint(t, rt.Bits()))
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(drawFloat(t, rt.Bits(), false))
	case reflect.String:
		if rt == tof(RStr("")) {
			rv.SetString(drawString(t, true))
			return
		}
		rv.SetString(drawString(t, false))
	case reflect.Ptr:
		if low || pick(t, 4, "nil") == 0 {
			return
		}
		rv.Set(reflect.New(rt.Elem()))
		fillCopy(t, rv.Elem(), depth-1, budget)
	case reflect.Slice:
		k := pick(t, 6, "slice")
		if k == 0 || low && k > 1 {
			return
		}
		n := 0
		if k > 1 {
			n = k - 1
		}
		s := reflect.MakeSlice(rt, n, n+pick(t, 2, "cap"))
		for i := 0; i < n; i++ {
			fillCopy(t, s.Index(i), depth-1, budget)
		}
		rv.Set(s)
	case reflect.Array:
		for i := 0; i < rt.Len(); i++ {
			fillCopy(t, rv.Index(i), depth-1, budget)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			fillCopy(t, settable(rv.Field(i)), depth-1, budget)
		}
	case reflect.Map:
		k := pick(t, 5, "map")
		if k == 0 || low {
			return
		}
		m := reflect.MakeMap(rt)
		for i := 0; i < k-1; i++ {
			key, val := reflect.New(rt.Key()).Elem(), reflect.New(rt.Elem()).Elem()
			fillCopy(t, key, depth-1, budget)
			if f := key; f.Kind() == reflect.Float64 && math.IsNaN(f.Float()) {
				continue
			}
			fillCopy(t, val, depth-1, budget)
			m.SetMapIndex(key, val)
		}
		rv.Set(m)
	case reflect.Interface:
		if low || pick(t, 5, "nilif") == 0 {
			return
		}
		var opts []reflect.Type
		for _, c := range []reflect.Type{tof(0), tof(""), tof(Leaf{}), tof(&Leaf{}), tof([]int{}), tof(map[string]int{}), tof(DCVal{}), tof(&DCPtr{}), tof(&DCMix{}), tof(CopyTree{}), tof(&CopyTree{}), tof((**int)(nil)),
			tof(&CopierA{}), tof(CopierB{}), tof(&CopierB{}), tof(ACPair{}), tof(&ACPair{}), tof([2]*int{}), timeType, tof(CStruct{}), tof(&CPtr{}), tof(CSmall{}), tof(CBytes{}), tof(RStruct{}), tof(CNested{}), tof(DCSlice{})} {
			if c.Implements(rt) {
				opts = append(opts, c)
			}
		}
		c := pickFrom(t, opts, "conc")
		v := reflect.New(c).Elem()
		fillCopy(t, v, depth-1, budget)
		if rt == copierType && c.Kind() == reflect.Ptr && v.IsNil() {
			return // its own DeepCopy would be called on nil
		}
		rv.Set(v)
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
	default:
		panic("fillCopy " + rt.String())
	}
}

// exact makes a copy that keeps everything, unexported state included: the
// snapshot of a value.
func exact(src reflect.Value) reflect.Value {
	dst := reflect.New(src.Type()).Elem()
	exactTo(dst, src)
	return dst
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	return x
}

func exactTo(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() && src.Type().Elem().Name() != "Location" {
			dst.Set(reflect.New(src.Type().Elem()))
			exactTo(dst.Elem(), src.Elem())
			return
		}
		dst.Set(src)
	case reflect.Interface:
		if !src.IsNil() {
			x := reflect.New(src.Elem().Type()).Elem()
			exactTo(x, addressable(src.Elem()))
			dst.Set(x)
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		s := reflect.MakeSlice(src.Type(), src.Len(), src.Cap())
		for i := 0; i < src.Len(); i++ {
			exactTo(s.Index(i), src.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			exactTo(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(src.Type())
		for _, k := range src.MapKeys() {
			x := reflect.New(src.Type().Elem()).Elem()
			exactTo(x, addressable(src.MapIndex(k)))
			m.SetMapIndex(k, x)
		}
		dst.Set(m)
	case reflect.Struct:
		if src.Type() == timeType {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			exactTo(settable(dst.Field(i)), settable(src.Field(i)))
		}
	default:
		dst.Set(src)
	}
}

// same compares everything: types, nil and empty, unexported state.
func same(a, b reflect.Value, at string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v != %v", at, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v != %v", at, a.IsNil(), b.IsNil())
		}
		if !a.IsNil() && a.Type().Elem().Name() != "Location" {
			return same(a.Elem(), b.Elem(), at+".*")
		}
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v != %v", at, a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return same(addressable(a.Elem()), addressable(b.Elem()), at+".()")
		}
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: nil %v len %d != nil %v len %d", at, a.IsNil(), a.Len(), b.IsNil(), b.Len())
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if s := same(a.Index(i), b.Index(i), ""); s != "" {
				return fmt.Sprintf("%s[%d]%s", at, i, s)
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: map nil %v len %d != nil %v len %d", at, a.IsNil(), a.Len(), b.IsNil(), b.Len())
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s: key %v missing", at, k)
			}
			if s := same(addressable(a.MapIndex(k)), addressable(v), fmt.Sprintf("%s[%v]", at, k)); s != "" {
				return s
			}
		}
	case reflect.Struct:
		if a.Type() == timeType {
			x, y := a.Interface().(time.Time), b.Interface().(time.Time)
			if x != y {
				return fmt.Sprintf("%s: %v != %v", at, x, y)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if s := same(settable(a.Field(i)), settable(b.Field(i)), at+"."+a.Type().Field(i).Name); s != "" {
				return s
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v != %v", at, a.Float(), b.Float())
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v != %v", at, a.Interface(), b.Interface())
		}
	}
	return ""
}

// span is a piece of memory.
type span struct {
	lo, hi uintptr
	what   string
}

// spans lists the mutable memory reachable from v.
func spans(v reflect.Value, at string, out *[]span) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type().Elem().Name() == "Location" {
			return
		}
		if n := v.Type().Elem().Size(); n > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + n, at})
		}
		spans(v.Elem(), at+".*", out)
	case reflect.Interface:
		if !v.IsNil() {
			spans(addressable(v.Elem()), at+".()", out)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if n := v.Type().Elem().Size() * uintptr(v.Cap()); n > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + n, at})
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spans(v.Index(i), fmt.Sprintf("%s[%d]", at, i), out)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		*out = append(*out, span{v.Pointer(), v.Pointer() + 1, at})
		for _, k := range v.MapKeys() {
			spans(addressable(v.MapIndex(k)), fmt.Sprintf("%s[%v]", at, k), out)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		v = addressable(v)
		for i := 0; i < v.NumField(); i++ {
			spans(settable(v.Field(i)), at+"."+v.Type().Field(i).Name, out)
		}
	}
}

func overlap(a, b []span) string {
	for _, x := range a {
		for _, y := range b {
			if x.lo < y.hi && y.lo < x.hi {
				return fmt.Sprintf("%s and %s", x.what, y.what)
			}
		}
	}
	return ""
}

// scribble changes everything reachable from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			if e := v.Elem(); e.Kind() == reflect.Ptr || e.Kind() == reflect.Slice || e.Kind() == reflect.Map {
				scribble(e)
			}
			return
		}
		if v.Type().Elem().Name() != "Location" {
			scribble(v.Elem())
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(addressable(v.MapIndex(k)))
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(12345, 0)))
			}
			return
		}
		if !v.CanAddr() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			scribble(settable(v.Field(i)))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(17.25)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "x")
		}
	}
}

// refCopy is what a copy must be.
func refCopy(src, dst reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
		if src.IsNil() {
			return
		}
	}
	rt := src.Type()
	if m := src.MethodByName("DeepCopy"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
		if o := m.Type().Out(0); o == rt {
			dst.Set(m.Call(nil)[0])
			return
		} else if rt.Kind() == reflect.Ptr && o == rt.Elem() {
			dst.Set(reflect.New(o))
			dst.Elem().Set(m.Call(nil)[0])
			return
		}
	}
	if rt.Kind() != reflect.Interface && hasUnmarshalAmino(rt) && rt.Kind() != reflect.Ptr && !strings.HasPrefix(rt.Name(), "ACNot") {
		if _, ok := rt.MethodByName("MarshalAmino"); ok {
			out := src.MethodByName("MarshalAmino").Call(nil)
			if !out[1].IsNil() {
				panic(out[1].Interface())
			}
			if e := dst.Addr().MethodByName("UnmarshalAmino").Call(out[:1])[0]; !e.IsNil() {
				panic(e.Interface())
			}
			return
		}
	}
	switch src.Kind() {
	case reflect.Ptr:
		dst.Set(reflect.New(rt.Elem()))
		refCopy(src.Elem(), dst.Elem())
	case reflect.Interface:
		x := reflect.New(src.Elem().Type()).Elem()
		refCopy(addressable(src.Elem()), x)
		dst.Set(x)
	case reflect.Slice:
		dst.Set(reflect.MakeSlice(rt, src.Len(), src.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			if isScalarKind(rt.Elem().Kind()) || rt.Elem().Kind() == reflect.String {
				dst.Index(i).Set(src.Index(i)) // methods of numbers and strings in lists aren't looked at
				continue
			}
			refCopy(src.Index(i), dst.Index(i))
		}
	case reflect.Map:
		dst.Set(reflect.MakeMap(rt))
		for _, k := range src.MapKeys() {
			x := reflect.New(rt.Elem()).Elem()
			refCopy(addressable(src.MapIndex(k)), x)
			dst.SetMapIndex(k, x)
		}
	case reflect.Struct:
		if rt == timeType {
			dst.Set(src)
			return
		}
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				refCopy(src.Field(i), dst.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

func checkDeepCopy(t *rapid.T) {
	rt := drawCopyType(t, 4)
	rv := reflect.New(rt).Elem()
	b := 50
	fillCopy(t, rv, 7, &b)
	if rt.Kind() == reflect.Interface && rv.IsNil() {
		if amino.DeepCopy(nil) != nil {
			t.Fatalf("DeepCopy(nil) isn't nil")
		}
		return
	}
	arg := rv.Interface()
	src := addressable(reflect.ValueOf(arg)) // what DeepCopy sees
	snap := exact(src)
	want := reflect.New(src.Type()).Elem()
	fails := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != errRepr {
					panic(r)
				}
				fails = true
			}
		}()
		refCopy(src, want)
	}()
	var got interface{}
	o := try(func() ([]byte, error) { got = amino.DeepCopy(arg); return nil, nil })
	var all []span
	spans(src, "", &all)
	ev.count(len(all) > 0, []byte(rt.String()+dump(src)), func() string { return fmt.Sprintf("%v: %s", typeStr(rt), dump(src)) }, copyClasses(rt)...)
	if fails {
		if o.panik == nil {
			t.Fatalf("an error of MarshalAmino or UnmarshalAmino was dropped\n type %v\n value %s", rt, dump(src))
		}
		return
	}
	if o.panik != nil {
		t.Fatalf("DeepCopy panicked: %v\n type %v\n value %s", o.panik, rt, dump(src))
	}
	if s := same(snap, src, ""); s != "" {
		t.Fatalf("DeepCopy changed its source at %s\n type %v\n value %s", s, rt, dump(src))
	}
	if got == nil {
		t.Fatalf("DeepCopy returned nil\n type %v\n value %s", rt, dump(src))
	}
	cp := addressable(reflect.ValueOf(got))
	if s := same(want, cp, ""); s != "" {
		t.Fatalf("the copy differs at %s\n type %v\n copy %s\n want %s\n source %s", s, rt, dump(cp), dump(want), dump(src))
	}
	var mine []span
	spans(cp, "", &mine)
	if s := overlap(all, mine); s != "" {
		t.Fatalf("source and copy share memory: %s\n type %v\n value %s", s, rt, dump(src))
	}
	scribble(cp)
	if s := same(snap, src, ""); s != "" {
		t.Fatalf("changing the copy changes the source at %s\n type %v\n value %s", s, rt, dump(src))
	}
	want2 := exact(cp)
	scribble(src)
	if s := same(want2, cp, ""); s != "" {
		t.Fatalf("changing the source changes the copy at %s\n type %v\n value %s", s, rt, dump(snap))
	}
}

func copyClasses(rt reflect.Type) (cs []string) {
	s := rt.String()
	for _, x := range []string{"map[", "**", "interface", "[][]", "DC", "Copier", "ACPair", "ACNot", "[]*", "struct {"} {
		if strings.Contains(s, x) {
			cs = append(cs, "type:"+x)
		}
	}
	return
}

// TestC16: deep copies.
func TestC16(t *testing.T) {
	run(t, "copies", 25, checkDeepCopy)
	run(t, "sizes", 0.008, checkSizedCopy)
	run(t, "shapes", 0.04, shapes(checkSizedCopy))
	run(t, "encodable", 8, func(t *rapid.T) { // the codec's own kind of values
		d := drawCase(t, true)
		src := addressable(d.rv)
		snap := exact(src)
		want := reflect.New(d.rt).Elem()
		refCopy(src, want)
		var got interface{}
		o := try(func() ([]byte, error) { got = amino.DeepCopy(src.Interface()); return nil, nil })
		ev.count(true, []byte(d.rt.String()+dump(src)), func() string { return fmt.Sprintf("%v: %s", typeStr(d.rt), dump(src)) })
		if o.panik != nil {
			t.Fatalf("DeepCopy panicked: %v\n%v", o.panik, d)
		}
		cp := addressable(reflect.ValueOf(got))
		if s := same(want, cp, ""); s != "" {
			t.Fatalf("the copy differs at %s\n copy %s\n want %s\n%v", s, dump(cp), dump(want), d)
		}
		if s := same(snap, src, ""); s != "" {
			t.Fatalf("DeepCopy changed its source at %s\n%v", s, d)
		}
		var a, b []span
		spans(src, "", &a)
		spans(cp, "", &b)
		if s := overlap(a, b); s != "" {
			t.Fatalf("source and copy share memory: %s\n%v", s, d)
		}
	})
}

var _ unsafe.Pointer
