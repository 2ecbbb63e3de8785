package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// useCodec makes a codec see other things first.
func useCodec(t *rapid.T, w *World, cdc *amino.Codec, json bool) {
	for i, n := 0, 1+pick(t, 3, "uses"); i < n; i++ {
		rt := drawTop(t, tctx{w: w, json: json, depth: 2})
		if rt.Kind() == reflect.Interface {
			continue
		}
		v := newV(w, json)
		rv := drawValue(t, rt, v)
		switch pick(t, 4, "use") {
		case 0:
			if !json {
				marshalBin(cdc, rv.Interface())
			}
		case 1:
			marshalJSON(cdc, rv.Interface())
		case 2:
			unmarshalBin(cdc, soup(t), rt)
		default:
			unmarshalJSON(cdc, []byte(pickFrom(t, oddScalars, "odd")), rt)
		}
	}
}

// asArg passes a value with some pointers in front, or not addressable.
func asArg(t *rapid.T, rv reflect.Value) interface{} {
	switch pick(t, 4, "arg") {
	case 0:
		return rv.Interface()
	case 1:
		return rv.Addr().Interface()
	case 2:
		p := rv.Addr()
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		return pp.Interface()
	default:
		p := rv.Addr()
		for i := 0; i < 3; i++ {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			p = pp
		}
		return p.Interface()
	}
}

func checkCanonical(t *rapid.T, json bool) {
	d := drawCase(t, json)
	if topNil(d.rv) {
		return
	}
	enc := marshalBin
	if json {
		enc = marshalJSON
	}
	first := enc(d.w.cdc, d.rv.Interface())
	if first.failed() {
		t.Fatalf("encoding failed: %v\n%v", first, d)
	}
	v := &varier{t: t, w: d.w, nilEmpty: !json, keepOmit: json}
	rt2 := v.deepen(d.rt)
	// A registered type can't change.
	if d.w.byT[derefT(d.rt)] != nil {
		rt2 = d.rt
	}
	rv2 := reflect.New(rt2).Elem()
	v.copyTo(rv2, d.rv)
	cdc := d.w.cdc
	what := ""
	switch pick(t, 4, "codec") {
	case 0:
		what = "same codec"
	case 1:
		cdc, what = d.w.fresh(nil), "fresh codec"
	case 2:
		cdc, what = d.w.fresh(rapid.Permutation(seq(len(d.w.ord))).Draw(t, "order")), "registered in another order"
	default:
		what = "used codec"
		if pick(t, 2, "f") == 1 {
			cdc, what = d.w.fresh(rapid.Permutation(seq(len(d.w.ord))).Draw(t, "order")), "used codec registered in another order"
		}
		useCodec(t, d.w, cdc, json)
	}
	arg := asArg(t, rv2)
	second := enc(cdc, arg)
	ev.count(len(first.bz) > 4, caseFP(d.rt, first.bz), func() string {
		return fmt.Sprintf("%v\n also as %T %s on a %s = %s", d, arg, dump(rv2), what, first)
	}, what, fmt.Sprintf("retyped:%v", rt2 != d.rt))
	if second.failed() {
		t.Fatalf("another representation fails to encode (%s): %v\n type %v\n value %s\n%v", what, second, typeStr(rt2), dump(rv2), d)
	}
	same := bytes.Equal(first.bz, second.bz)
	if !same && json {
		a, ok1 := parseJSON(first.bz)
		b, ok2 := parseJSON(second.bz)
		ref, err := d.w.encTopJSON(d.rv) // knows which objects are maps
		same = ok1 && ok2 && err == nil && ref.sameAs(a) && ref.sameAs(b)
	}
	if !same {
		t.Fatalf("the encoding depends on the representation (%s)\n %x\n %x\n type %v\n value %s\n%v", what, first.bz, second.bz, typeStr(rt2), dump(rv2), d)
	}
	third := enc(d.w.cdc, d.rv.Interface())
	if third.failed() || !json && !bytes.Equal(third.bz, first.bz) || len(third.bz) != len(first.bz) {
		t.Fatalf("encoding again gives %v, before %x\n%v", third, first.bz, d)
	}
}

// checkInjective: values with the same bytes mean the same. (The converse has
// an exception: a nil pointer to a time means 1970, as does a pointer to 1970,
// which is written.)
func checkInjective(t *rapid.T) {
	d := drawCase(t, false)
	if topNil(d.rv) {
		return
	}
	a := marshalBin(d.w.cdc, d.rv.Interface())
	if a.failed() {
		t.Fatalf("encoding failed: %v\n%v", a, d)
	}
	other := clone(d.rv)
	mutate(t, other, newV(d.w, false), 0)
	if topNil(other) {
		return
	}
	b := marshalBin(d.w.cdc, other.Interface())
	if b.failed() {
		t.Fatalf("encoding failed: %v\n%s\n%v", b, dump(other), d)
	}
	s := diff(d.w.normTop(d.rv, d.rt), d.w.normTop(other, d.rt))
	cl := "different"
	if s == "" {
		cl = "same meaning"
	}
	ev.count(diff(d.rv, other) != "", append(caseFP(d.rt, a.bz), b.bz...), func() string {
		return fmt.Sprintf("%v\n and %s (%s): %x, %x", d, dump(other), cl, a.bz, b.bz)
	}, cl)
	if s != "" && bytes.Equal(a.bz, b.bz) {
		t.Fatalf("%s values (%s)\n %x\n %x\n other %s\n%v", cl, s, a.bz, b.bz, dump(other), d)
	}
}

func TestC04(t *testing.T) {
	run(t, "binary", 15, func(t *rapid.T) { checkCanonical(t, false) })
	run(t, "json", 8, func(t *rapid.T) { checkCanonical(t, true) })
	run(t, "injective", 15, checkInjective)
}
