package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"pgregory.net/rapid"
)

// shape classifies a value for the evidence.
func shape(rt reflect.Type, bz []byte) []string {
	cs := []string{"top:" + derefT(rt).Kind().String()}
	switch n := len(bz); {
	case n == 0:
		cs = append(cs, "len:0")
	case n < 128:
		cs = append(cs, "len:1-127")
	case n < 16384:
		cs = append(cs, "len:128-16383")
	default:
		cs = append(cs, "len:16384+")
	}
	return cs
}

func nontrivBin(rt reflect.Type, bz []byte) bool { return len(bz) >= 2 }

func caseFP(rt reflect.Type, bz []byte) []byte { return append([]byte(rt.String()+"|"), bz...) }

// topValue draws a world, a type and a value for the top level. ptr is how
// many pointers to put in front of the argument.
type drawn struct {
	w  *World
	rt reflect.Type
	rv reflect.Value // addressable, of type rt
}

func (d drawn) String() string {
	return fmt.Sprintf("%v\n type %v\n value %s", d.w, typeStr(d.rt), dump(d.rv))
}

func drawCase(t *rapid.T, json bool) drawn {
	w := drawWorld(t)
	rt := drawTop(t, tctx{w: w, json: json, depth: 3})
	if len(w.concs) > 0 && chance(t, 4, "topconc") {
		rt = pickFrom(t, w.concs, "tc").T
	}
	if derefT(rt).Kind() == reflect.Interface {
		rt = tof(0)
	}
	return drawn{w, rt, drawValue(t, rt, newV(w, json))}
}

// bigCase: a struct with so many fields that keys take three bytes.
func bigCase(t *rapid.T) drawn {
	w := emptyWorld()
	rt := bigStruct(2040 + pick(t, 20, "n"))
	v := newV(w, false)
	b := 6000
	v.budget = &b
	rv := reflect.New(rt).Elem()
	for i := 0; i < rt.NumField(); i++ {
		if i > 2030 || i%97 == 3 {
			fillValue(t, rv.Field(i), v)
		}
	}
	return drawn{w, rt, rv}
}

func topNil(rv reflect.Value) bool {
	_, isNil := deref(rv)
	return isNil
}

func checkRoundTrip(t *rapid.T, d drawn) {
	if topNil(d.rv) {
		return
	}
	o := marshalBin(d.w.cdc, d.rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	ev.count(nontrivBin(d.rt, o.bz), caseFP(d.rt, o.bz), func() string { return d.String() + fmt.Sprintf(" = %x", o.bz) }, shape(d.rt, o.bz)...)
	want := d.w.normTop(d.rv, d.rt)
	// Half of the time decode with a codec that has seen nothing yet.
	cdc := d.w.cdc
	if pick(t, 2, "fresh") == 1 {
		cdc = d.w.fresh(nil)
	}
	got, do := unmarshalBin(cdc, o.bz, d.rt)
	if do.failed() {
		t.Fatalf("decoding %x failed: %v\n%v", o.bz, do, d)
	}
	if s := diff(want, got); s != "" {
		t.Fatalf("round trip changed the value at %s\n bytes %x\n got %s\n want %s\n%v", s, clip(o.bz), dump(got), dump(want), d)
	}
	// Into the dereferenced type as well.
	if bt := derefT(d.rt); bt != d.rt {
		got, do := unmarshalBin(cdc, o.bz, bt)
		if do.failed() {
			t.Fatalf("decoding %x into %v failed: %v\n%v", o.bz, bt, do, d)
		}
		if s := diff(d.w.normTop(d.rv, bt), got); s != "" {
			t.Fatalf("round trip into %v changed the value at %s\n got %s\n%v", bt, s, dump(got), d)
		}
	}
	// Decoding again what was decoded is the identity.
	if dv, _ := deref(got); dv.IsValid() {
		o2 := marshalBin(cdc, got.Interface())
		if o2.failed() {
			t.Fatalf("encoding the decoded value failed: %v\n%v", o2, d)
		}
		got2, do2 := unmarshalBin(cdc, o2.bz, d.rt)
		if do2.failed() {
			t.Fatalf("second decoding failed: %v\n%v", do2, d)
		}
		if s := diff(got, got2); s != "" {
			t.Fatalf("second round trip changed the value at %s\n got %s\n%v", s, dump(got2), d)
		}
	}
}

func TestC01(t *testing.T) {
	run(t, "values", 20, func(t *rapid.T) { checkRoundTrip(t, drawCase(t, false)) })
	run(t, "many_fields", 0.05, func(t *rapid.T) { checkRoundTrip(t, bigCase(t)) })
	run(t, "sizes", 0.03, checkSizedRoundTrip)
	run(t, "shapes", 0.08, shapes(checkSizedRoundTrip))
}

func checkFormat(t *rapid.T, d drawn) {
	if topNil(d.rv) {
		return
	}
	want, err := d.w.encTop(d.rv)
	if err != nil {
		t.Fatalf("the generator made an unsupported value\n%v", d)
	}
	o := marshalBin(d.w.cdc, d.rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	ev.count(nontrivBin(d.rt, want), caseFP(d.rt, want), func() string { return d.String() + fmt.Sprintf(" = %x", want) }, shape(d.rt, want)...)
	if !bytes.Equal(o.bz, want) {
		t.Fatalf("encoding differs from the reference\n got  %x\n want %x\n%v", o.bz, want, d)
	}
}

func TestC02(t *testing.T) {
	run(t, "values", 30, func(t *rapid.T) { checkFormat(t, drawCase(t, false)) })
	run(t, "many_fields", 0.05, func(t *rapid.T) { checkFormat(t, bigCase(t)) })
	run(t, "sizes", 0.03, checkSizedFormat)
	run(t, "shapes", 0.2, shapes(checkSizedFormat))
}
