package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// drawDoc draws a JSON text, with white space when asked to.
func drawDoc(t *rapid.T, depth int, space bool) string {
	sp := func() string {
		if !space {
			return ""
		}
		return pickFrom(t, []string{"", "", "", " ", "\n", "\t ", "\r\n"}, "sp")
	}
	k := pick(t, 9, "dk")
	if depth <= 0 && k < 4 {
		k += 4
	}
	switch k {
	case 0, 1:
		var s []string
		for i, n := 0, pick(t, 4, "dn"); i < n; i++ {
			s = append(s, sp()+drawDoc(t, depth-1, space)+sp())
		}
		return "[" + strings.Join(s, ",") + "]"
	case 2, 3:
		var s []string
		for i, n := 0, pick(t, 4, "dn"); i < n; i++ {
			s = append(s, sp()+stdJSON(pickFrom(t, []string{"type", "value", "a", "X", "b\"", "é"}, "key"))+sp()+":"+sp()+drawDoc(t, depth-1, space)+sp())
		}
		return "{" + strings.Join(s, ",") + "}"
	case 4:
		return stdJSON(drawString(t, true))
	case 5:
		return pickFrom(t, []string{"true", "false", "0", "-1", "1e400", "12345678901234567890", "-0.0", "1E-3"}, "lit")
	case 6:
		return quoteName(fmt.Sprint(drawInt(t, 64)))
	case 7:
		return fmt.Sprint(drawInt(t, 64))
	default:
		return pickFrom(t, []string{"{}", "[]", `""`, `{"type":"x","value":1}`, `"\u0041"`, `"<&>"`, "null"}, "fix")
	}
}

// checkOwnJSON: a type with a JSON form of its own anywhere in a value.
func checkOwnJSON(t *rapid.T) {
	leaf := pickFrom(t, []reflect.Type{tof(JHex(0)), tof(JPair{}), tof(JList{}), tof(JStr("")), tof(JBoth{}), tof(JRaw{}), tof(JRaw{}), tof(JRaw{}), tof(JEmb{})}, "leaf")
	w, conc := emptyWorld(), leaf
	iface := pick(t, 3, "iface") == 2
	reg := pick(t, 5, "reg") == 4
	if iface || reg {
		w, _, conc = jsonWorld(t, leaf)
	}
	rt := drawPos(t, leaf, true, iface)
	if pick(t, 6, "top") == 5 {
		rt = leaf
		if pick(t, 3, "ptop") == 2 {
			rt = reflect.PtrTo(leaf)
		}
	}
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, leaf, conc, func() reflect.Value {
		if leaf == tof(JRaw{}) {
			return reflect.ValueOf(JRaw{drawDoc(t, 3, pick(t, 2, "space") == 1)})
		}
		return drawCustomJSON(t, leaf)
	})
	d := drawn{w, rt, rv}
	if topNil(rv) {
		return
	}
	want, err := w.encTopJSON(rv)
	if err != nil {
		t.Fatalf("reference: %v\n%v", err, d)
	}
	o := marshalJSON(w.cdc, asArg(t, rv))
	if o.failed() {
		t.Fatalf("encoding: %v\n%v", o, d)
	}
	ev.count(nontrivJSON(o.bz), caseFP(rt, o.bz), func() string { return fmt.Sprintf("%v: %s", d, o.bz) }, "leaf:"+leaf.Name(), fmt.Sprintf("iface:%v", iface), fmt.Sprintf("registered:%v", w.byT[leaf] != nil))
	m, ok := parseJSON(o.bz)
	if !ok || !want.sameAs(m) {
		t.Fatalf("the text of MarshalJSON isn't where it should be\n got  %s\n want %s\n%v", o.bz, want.bytes(), d)
	}
	exp := w.normTopJSON(rv, rt)
	docs := [][]byte{o.bz, m.bytes()}
	if len(m.kids) > 0 {
		var b bytes.Buffer
		must(json.Indent(&b, o.bz, "", "  "))
		docs = append(docs, b.Bytes())
	}
	for _, doc := range docs {
		got, do := unmarshalJSON(w.cdc, doc, rt)
		if do.failed() {
			t.Fatalf("decoding %s: %v\n%v", doc, do, d)
		}
		if s := diff(exp, got); s != "" {
			t.Fatalf("decoded value differs at %s\n document %s\n got %s\n%v", s, doc, dump(got), d)
		}
	}
}

func drawCustomJSON(t *rapid.T, rt reflect.Type) reflect.Value {
	rv := reflect.New(rt).Elem()
	if pick(t, 5, "zero") > 0 {
		fillValue(t, rv, newV(emptyWorld(), true))
	}
	return rv
}

// jsonWorld registers leaf.
func jsonWorld(t *rapid.T, leaf reflect.Type) (w, _ *World, conc reflect.Type) {
	w = emptyWorld()
	w.add(regStep{i: &Iface{T: anyType}})
	w.add(regStep{c: newConc(leaf, pick(t, 2, "ptr") == 1, fmt.Sprintf("own/%d", pick(t, 100, "name")))})
	return w, nil, w.concs[0].form()
}

// checkOwnJSONErrors: an error of MarshalJSON or UnmarshalJSON anywhere comes out.
func checkOwnJSONErrors(t *rapid.T) {
	leaf := tof(JFail(0))
	w, conc := emptyWorld(), leaf
	iface := pick(t, 3, "iface") == 2
	if iface {
		w, _, conc = jsonWorld(t, leaf)
	}
	rt := drawPos(t, leaf, true, iface)
	if pick(t, 6, "top") == 5 {
		rt = leaf
	}
	rv := reflect.New(rt).Elem()
	n, hit := 0, false
	bad := pick(t, 5, "bad")
	val := JFail(13)
	fillPos(t, rv, leaf, conc, func() reflect.Value {
		n++
		if n-1 == bad {
			hit = true
			return reflect.ValueOf(val)
		}
		return reflect.ValueOf(JFail(pickFrom(t, []int32{0, 1, 100, -5}, "v")))
	})
	if !hit {
		return
	}
	d := drawn{w, rt, rv}
	o := marshalJSON(w.cdc, asArg(t, rv))
	ev.count(true, []byte(rt.String()+dump(rv)), func() string { return fmt.Sprintf("%v: %v", d, o) })
	if o.panik != nil || o.err == nil || !causedBy(o.err, errJSONForm) {
		t.Fatalf("the error of MarshalJSON was lost: %v\n%v", o, d)
	}
	// The same with 13 replaced by 17 encodes, and fails to decode.
	replaceJFail(rv)
	o = marshalJSON(w.cdc, asArg(t, rv))
	if o.failed() {
		t.Fatalf("encoding: %v\n%v", o, d)
	}
	_, o2 := unmarshalJSON(w.cdc, o.bz, rt)
	if o2.panik != nil || o2.err == nil || !causedBy(o2.err, errJSONForm) {
		t.Fatalf("the error of UnmarshalJSON was lost: %v\n document %s\n%v", o2, o.bz, d)
	}
}

func replaceJFail(rv reflect.Value) {
	if rv.Type() == tof(JFail(0)) {
		if rv.Int() == 13 {
			rv.SetInt(17)
		}
		return
	}
	switch rv.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			replaceJFail(rv.Elem())
		}
	case reflect.Interface:
		if rv.IsNil() {
			return
		}
		v := rv.Elem()
		if v.Kind() == reflect.Ptr {
			replaceJFail(v)
			return
		}
		x := reflect.New(v.Type()).Elem()
		x.Set(v)
		replaceJFail(x)
		rv.Set(x)
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			replaceJFail(rv.Index(i))
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			x := reflect.New(rv.Type().Elem()).Elem()
			x.Set(rv.MapIndex(k))
			replaceJFail(x)
			rv.SetMapIndex(k, x)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath == "" {
				replaceJFail(rv.Field(i))
			}
		}
	}
}

// Types without the JSON methods, otherwise the same.
type (
	jPairTwin struct {
		A int32
		B string
	}
	jBothTwin struct{ n int64 }
	jHexTwin  int64
	jListTwin []int32
)

func (j jBothTwin) MarshalAmino() (JBothRepr, error)  { return JBothRepr{j.n}, nil }
func (j *jBothTwin) UnmarshalAmino(x JBothRepr) error { j.n = x.V; return nil }

// checkOwnJSONBinary: the JSON methods make no difference to binary coding.
func checkOwnJSONBinary(t *rapid.T) {
	pairs := [][2]reflect.Type{{tof(JPair{}), tof(jPairTwin{})}, {tof(JBoth{}), tof(jBothTwin{})}, {tof(JHex(0)), tof(jHexTwin(0))}, {tof(JList{}), tof(jListTwin{})}}
	p := pickFrom(t, pairs, "pair")
	w := emptyWorld()
	rt := drawPos(t, p[0], false, false)
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, p[0], p[0], func() reflect.Value { return drawCustomJSON(t, p[0]) })
	if topNil(rv) {
		return
	}
	tt := evo{}.mapType(rt, p[0], p[1])
	tv := reflect.New(tt).Elem()
	toTwin(rv, tv, p[0])
	a, b := marshalBin(w.cdc, asArg(t, rv)), marshalBin(w.cdc, tv.Interface())
	d := drawn{w, rt, rv}
	ev.count(len(a.bz) > 1, caseFP(rt, a.bz), func() string { return fmt.Sprintf("%v: %x", d, clip(a.bz)) }, "binary")
	if a.failed() || b.failed() || !bytes.Equal(a.bz, b.bz) {
		t.Fatalf("binary encoding is %v, without the JSON methods %v\n%v", a, b, d)
	}
	got, o := unmarshalBin(w.cdc, a.bz, rt)
	if o.failed() {
		t.Fatalf("decoding %x: %v\n%v", clip(a.bz), o, d)
	}
	twin, o2 := unmarshalBin(w.cdc, a.bz, tt)
	if o2.failed() {
		t.Fatalf("decoding %x without the JSON methods: %v\n%v", clip(a.bz), o2, d)
	}
	gt := reflect.New(tt).Elem()
	toTwin(got, gt, p[0])
	if s := diff(twin, gt); s != "" {
		t.Fatalf("decoded values differ at %s\n%v", s, d)
	}
}

func toTwin(src, dst reflect.Value, leaf reflect.Type) {
	if src.Type() == leaf {
		dst.Set(src.Convert(dst.Type()))
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			toTwin(src.Elem(), dst.Elem(), leaf)
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			toTwin(src.Index(i), dst.Index(i), leaf)
		}
	case reflect.Struct:
		if src.Type().Name() != "" {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			toTwin(src.Field(i), dst.Field(i), leaf)
		}
	default:
		dst.Set(src)
	}
}

// TestC25: types with a JSON form of their own.
func TestC25(t *testing.T) {
	run(t, "positions", 20, checkOwnJSON)
	run(t, "errors", 10, checkOwnJSONErrors)
	run(t, "binary", 6, checkOwnJSONBinary)
	run(t, "pointer", 6, checkOwnJSONPointer)
}

// As JHex, JPair and JRaw, but the methods are the pointer's.
type (
	jHexP  int64
	jPairP struct {
		A int32
		B string
	}
	jRawP struct{ Doc string }
)

func (j *jHexP) MarshalJSON() ([]byte, error)  { return JHex(*j).MarshalJSON() }
func (j *jHexP) UnmarshalJSON(b []byte) error  { return (*JHex)(j).UnmarshalJSON(b) }
func (j *jPairP) MarshalJSON() ([]byte, error) { return JPair(*j).MarshalJSON() }
func (j *jPairP) UnmarshalJSON(b []byte) error { return (*JPair)(j).UnmarshalJSON(b) }
func (j *jRawP) MarshalJSON() ([]byte, error)  { return JRaw(*j).MarshalJSON() }
func (j *jRawP) UnmarshalJSON(b []byte) error  { return (*JRaw)(j).UnmarshalJSON(b) }

// checkOwnJSONPointer: methods of pointers count where the value can be
// pointed to: in what is encoded by a pointer, all but map values and values
// in interfaces.
func checkOwnJSONPointer(t *rapid.T) {
	p := pickFrom(t, [][2]reflect.Type{{tof(JHex(0)), tof(jHexP(0))}, {tof(JPair{}), tof(jPairP{})}, {tof(JRaw{}), tof(jRawP{})}}, "pair")
	rt := drawPos(t, p[0], false, false)
	if pick(t, 8, "top") == 7 {
		rt = p[0]
	}
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, p[0], p[0], func() reflect.Value {
		if p[0] == tof(JRaw{}) {
			return reflect.ValueOf(JRaw{drawDoc(t, 2, pick(t, 2, "space") == 1)})
		}
		return drawCustomJSON(t, p[0])
	})
	if topNil(rv) {
		return
	}
	tt := evo{}.mapType(rt, p[0], p[1])
	tv := reflect.New(tt).Elem()
	toTwin(rv, tv, p[0])
	w := emptyWorld()
	a := marshalJSON(w.cdc, rv.Addr().Interface())
	arg := tv.Addr()
	if pick(t, 3, "deeper") == 2 {
		x := reflect.New(arg.Type())
		x.Elem().Set(arg)
		arg = x
	}
	b := marshalJSON(w.cdc, arg.Interface())
	d := drawn{w, tt, tv}
	ev.count(nontrivJSON(a.bz), caseFP(tt, a.bz), func() string { return fmt.Sprintf("%v: %s", d, a.bz) }, "pointer:"+p[1].Name())
	if a.failed() || b.failed() || !bytes.Equal(a.bz, b.bz) {
		t.Fatalf("with methods of the pointer: %v\n with methods of the value: %v\n%v", b, a, d)
	}
	got, o := unmarshalJSON(w.cdc, b.bz, tt)
	want, o2 := unmarshalJSON(w.cdc, b.bz, rt)
	if o.failed() || o2.failed() {
		t.Fatalf("decoding %s: %v; with methods of the value %v\n%v", clip(b.bz), o, o2, d)
	}
	wt := reflect.New(tt).Elem()
	toTwin(want, wt, p[0])
	if s := diff(wt, got); s != "" {
		t.Fatalf("decoded values differ at %s\n document %s\n%v", s, clip(b.bz), d)
	}
}
