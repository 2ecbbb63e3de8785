package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// form is one way to call the encoder or decoder.
type form struct {
	name string
	must bool
	enc  func(v interface{}) ([]byte, error)
	dec  func(bz []byte, p interface{}) error
}

func mustEnc(f func(interface{}) []byte) func(interface{}) ([]byte, error) {
	return func(v interface{}) ([]byte, error) { return f(v), nil }
}

func mustDec(f func([]byte, interface{})) func([]byte, interface{}) error {
	return func(bz []byte, p interface{}) error { f(bz, p); return nil }
}

// forms lists the entry points of a codec, and the package-level ones.
func forms(cdc *amino.Codec, pkg bool) (bare, prefixed, js []form) {
	writer := func(f func(w *limWriter, v interface{}) (int64, error)) func(interface{}) ([]byte, error) {
		return func(v interface{}) ([]byte, error) {
			lw := &limWriter{left: 1 << 40}
			n, err := f(lw, v)
			if err == nil && n != int64(len(lw.got)) {
				panic(fmt.Sprintf("writer form reports %d bytes, wrote %d", n, len(lw.got)))
			}
			if err != nil && len(lw.got) > 0 {
				panic(fmt.Sprintf("writer form wrote %x and failed: %v", lw.got, err))
			}
			return lw.got, err
		}
	}
	reader := func(f func(r *chunkReader, p interface{}, max int64) (int64, error), limited bool) func([]byte, interface{}) error {
		return func(bz []byte, p interface{}) error {
			r := &chunkReader{data: bz, end: errRead}
			max := int64(0)
			if limited {
				max = int64(len(bz))
			}
			n, err := f(r, p, max)
			if err == nil && (n != int64(len(bz)) || r.taken != len(bz)) {
				panic(fmt.Sprintf("reader form reports %d bytes and took %d of %d", n, r.taken, len(bz)))
			}
			return err
		}
	}
	bare = []form{
		{"MarshalBinaryBare", false, cdc.MarshalBinaryBare, cdc.UnmarshalBinaryBare},
		{"MustMarshalBinaryBare", true, mustEnc(cdc.MustMarshalBinaryBare), mustDec(cdc.MustUnmarshalBinaryBare)},
	}
	prefixed = []form{
		{"MarshalBinaryLengthPrefixed", false, cdc.MarshalBinaryLengthPrefixed, cdc.UnmarshalBinaryLengthPrefixed},
		{"MustMarshalBinaryLengthPrefixed", true, mustEnc(cdc.MustMarshalBinaryLengthPrefixed), mustDec(cdc.MustUnmarshalBinaryLengthPrefixed)},
		{"MarshalBinaryLengthPrefixedWriter", false,
			writer(func(w *limWriter, v interface{}) (int64, error) { return cdc.MarshalBinaryLengthPrefixedWriter(w, v) }),
			reader(func(r *chunkReader, p interface{}, m int64) (int64, error) {
				return cdc.UnmarshalBinaryLengthPrefixedReader(r, p, m)
			}, false)},
		{"UnmarshalBinaryLengthPrefixedReader limited", false, nil,
			reader(func(r *chunkReader, p interface{}, m int64) (int64, error) {
				return cdc.UnmarshalBinaryLengthPrefixedReader(r, p, m)
			}, true)},
	}
	js = []form{
		{"MarshalJSON", false, cdc.MarshalJSON, cdc.UnmarshalJSON},
		{"MustMarshalJSON", true, mustEnc(cdc.MustMarshalJSON), mustDec(cdc.MustUnmarshalJSON)},
	}
	if pkg {
		bare = append(bare,
			form{"amino.MarshalBinaryBare", false, amino.MarshalBinaryBare, amino.UnmarshalBinaryBare},
			form{"amino.MustMarshalBinaryBare", true, mustEnc(amino.MustMarshalBinaryBare), mustDec(amino.MustUnmarshalBinaryBare)})
		prefixed = append(prefixed,
			form{"amino.MarshalBinaryLengthPrefixed", false, amino.MarshalBinaryLengthPrefixed, amino.UnmarshalBinaryLengthPrefixed},
			form{"amino.MustMarshalBinaryLengthPrefixed", true, mustEnc(amino.MustMarshalBinaryLengthPrefixed), mustDec(amino.MustUnmarshalBinaryLengthPrefixed)},
			form{"amino.MarshalBinaryLengthPrefixedWriter", false,
				writer(func(w *limWriter, v interface{}) (int64, error) { return amino.MarshalBinaryLengthPrefixedWriter(w, v) }),
				reader(func(r *chunkReader, p interface{}, m int64) (int64, error) {
					return amino.UnmarshalBinaryLengthPrefixedReader(r, p, m)
				}, false)})
		js = append(js, form{"amino.MarshalJSON", false, amino.MarshalJSON, amino.UnmarshalJSON})
	}
	return
}

// checkFormsLimit: the reader forms under every limit, on streams of good and bad
// messages.
func checkFormsLimit(t *rapid.T) {
	w := emptyWorld()
	rt, _, bz := drawEncodable(t, w)
	in := frame(bz)
	if pick(t, 3, "bad") == 0 {
		in, _ = corrupt1(t, in)
	}
	in = append(in, drawBytes(t, pick(t, 3, "behind"))...)
	for _, limit := range []int64{0, 1, 2, -1, int64(len(in)) - 1, int64(len(in)), int64(len(in)) + 1, int64(pick(t, len(in)+3, "limit"))} {
		type res struct {
			p     reflect.Value
			n     int64
			taken int
			o     outcome
		}
		var rs [2]res
		for i, f := range []func(io.Reader, interface{}, int64) (int64, error){w.cdc.UnmarshalBinaryLengthPrefixedReader, amino.UnmarshalBinaryLengthPrefixedReader} {
			r := &chunkReader{data: in, end: errRead}
			p := reflect.New(rt)
			var n int64
			o := try(func() (_ []byte, err error) { n, err = f(r, p.Interface(), limit); return })
			rs[i] = res{p.Elem(), n, r.taken, o}
		}
		a, b := rs[0], rs[1]
		ev.count(len(bz) > 1, caseFP(rt, in), func() string { return fmt.Sprintf("%x limit %d into %v: %v", clip(in), limit, typeStr(rt), a.o) }, fmt.Sprintf("failed:%v", a.o.failed()))
		if a.o.failed() != b.o.failed() || (a.o.panik == nil) != (b.o.panik == nil) || a.n != b.n || a.taken != b.taken {
			t.Fatalf("limit %d: the method gives %v n=%d and took %d, the package-level function %v n=%d and took %d\n input %x\n type %v", limit, a.o, a.n, a.taken, b.o, b.n, b.taken, clip(in), rt)
		}
		if !a.o.failed() {
			if s := same(a.p, b.p, ""); s != "" {
				t.Fatalf("limit %d: the method and the package-level function differ at %s\n input %x\n type %v", limit, s, clip(in), rt)
			}
		}
	}
}

// unencodable draws an argument that can't be encoded, mostly.
func unencodable(t *rapid.T) interface{} {
	n := 7
	pn := &n
	return pickFrom(t, []interface{}{
		nil, (*Leaf)(nil), (**int)(nil), make(chan int), func() {}, complex(1, 2), 1.5, float32(2), struct{ F float64 }{1.5},
		struct{ A, B interface{} }{1, "x"}, struct{ X INone }{}, IfOne{A: CInt(3)}, map[string]int{"a": 1}, map[int]int{}, [][][]int{{{1}}},
		struct {
			L [][]int `amino:"empty_elements"`
		}{[][]int{{1}}},
		struct {
			L []*Leaf `amino:"empty_elements"`
		}{[]*Leaf{nil}},
		RFail(13), RFailS{13}, []RFail{1, 13}, struct{ P *RFailS }{&RFailS{13}}, &pn, struct{ C chan int }{make(chan int)}, uintptr(3),
	}, "unencodable")
}

// checkFormsEnc: every way to encode a value.
func checkFormsEnc(t *rapid.T) {
	var d drawn
	var arg interface{}
	odd := pick(t, 5, "odd") == 4
	js := pick(t, 2, "json") == 1
	if odd {
		d = drawn{w: drawWorld(t)}
		arg = unencodable(t)
		if arg != nil {
			d.rt, d.rv = reflect.TypeOf(arg), reflect.ValueOf(arg)
		}
	} else {
		d = drawCase(t, false)
		if pick(t, 3, "regs") == 0 { // an interface value whose type is unknown to the codec
			d.w = emptyWorld()
		}
		arg = d.rv.Interface()
	}
	desc := func() string {
		if d.rv.IsValid() {
			return d.String()
		}
		return "nil"
	}
	bare, prefixed, jforms := forms(d.w.cdc, len(d.w.ord) == 0)
	if js {
		bare, prefixed = jforms, nil
	}
	first := try(func() ([]byte, error) { return bare[0].enc(arg) })
	var fp []byte
	if d.rt != nil {
		fp = caseFP(d.rt, first.bz)
	}
	ev.count(len(first.bz) > 1 || first.failed(), fp, desc, fmt.Sprintf("json:%v", js), fmt.Sprintf("failed:%v", first.failed()), fmt.Sprintf("package:%v", len(d.w.ord) == 0))
	compare := func(f form, how string, v interface{}, want []byte) {
		o := try(func() ([]byte, error) { return f.enc(v) })
		if o.failed() != first.failed() {
			t.Fatalf("%s (%s): %v\n%s: %v\n%v", f.name, how, o, bare[0].name, first, desc())
		}
		if first.failed() {
			if f.must && o.panik == nil {
				t.Fatalf("%s (%s) returned %x; %s: %v\n%v", f.name, how, o.bz, bare[0].name, first, desc())
			}
			if !f.must && (o.panik == nil) != (first.panik == nil) {
				t.Fatalf("%s (%s): %v\n%s: %v\n%v", f.name, how, o, bare[0].name, first, desc())
			}
			if first.panik == nil && !f.must && o.bz != nil && len(o.bz) > 0 {
				t.Fatalf("%s (%s) returned %x and an error\n%v", f.name, how, o.bz, desc())
			}
			return
		}
		if !bytes.Equal(o.bz, want) {
			t.Fatalf("%s (%s): %x %q\n%s: %x %q\n%v", f.name, how, clip(o.bz), clip(o.bz), bare[0].name, clip(want), clip(want), desc())
		}
	}
	args := []interface{}{arg}
	if !odd {
		p := d.rv.Addr()
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		args = append(args, p.Interface(), pp.Interface())
	}
	for i, a := range args {
		for _, f := range bare {
			compare(f, fmt.Sprintf("%d pointers", i), a, first.bz)
		}
		for _, f := range prefixed {
			if f.enc != nil {
				compare(f, fmt.Sprintf("%d pointers", i), a, frame(first.bz))
			}
		}
		if !js {
			continue
		}
		// The indented form is the same document.
		prefix, indent := pickFrom(t, []string{"", "", " ", "\t", "\n "}, "prefix"), pickFrom(t, []string{"", " ", "\t", "    "}, "indent")
		want := first.bz
		if !first.failed() {
			var b bytes.Buffer
			if err := json.Indent(&b, first.bz, prefix, indent); err != nil {
				t.Fatalf("MarshalJSON returned %s, which isn't JSON: %v", first.bz, err)
			}
			want = b.Bytes()
		}
		fs := []form{{"MarshalJSONIndent", false, func(v interface{}) ([]byte, error) { return d.w.cdc.MarshalJSONIndent(v, prefix, indent) }, nil}}
		if len(d.w.ord) == 0 {
			fs = append(fs, form{"amino.MarshalJSONIndent", false, func(v interface{}) ([]byte, error) { return amino.MarshalJSONIndent(v, prefix, indent) }, nil})
		}
		for _, f := range fs {
			compare(f, fmt.Sprintf("%d pointers", i), a, want)
		}
	}
}

// checkFormsDec: every way to decode an input.
func checkFormsDec(t *rapid.T) {
	d := drawCase(t, false)
	if pick(t, 8, "ro") == 7 && len(d.w.concs) == 0 {
		d.rt = pickFrom(t, []reflect.Type{tof(RFail(0)), tof([]RFailS{}), tof(struct{ A, B *RFailS }{}), tof(make(chan int)), tof(map[string]int{}), tof(1.5), tof(struct{ F float64 }{})}, "odd")
		d.rv = reflect.New(d.rt).Elem()
		if d.rt.Kind() != reflect.Chan && d.rt.Kind() != reflect.Map && d.rt.Kind() != reflect.Float64 && d.rt != tof(struct{ F float64 }{}) {
			fillValue(t, d.rv, newV(d.w, false))
		}
	}
	js := pick(t, 2, "json") == 1
	bare, prefixed, jforms := forms(d.w.cdc, len(d.w.ord) == 0)
	if js {
		bare, prefixed = jforms, nil
	}
	var bz []byte
	how := "good"
	if !topNil(d.rv) {
		bz = try(func() ([]byte, error) { return bare[0].enc(d.rv.Interface()) }).bz
	}
	switch pick(t, 4, "input") {
	case 0:
		if js {
			bz, how = corruptJSON(t, d.w, bz)
		} else {
			bz, how = corrupt(t, bz)
		}
	case 1:
		if !js {
			bz, how = soup(t), "soup"
		}
	}
	framed := frame(bz)
	badFrame := !js && pick(t, 5, "frame") == 4
	if badFrame {
		framed, how = corrupt1(t, framed)
		how = "frame: " + how
		bare = nil
	}
	type target struct {
		how string
		mk  func() (p, v reflect.Value)
	}
	targets := []target{
		{"a pointer", func() (p, v reflect.Value) { p = reflect.New(d.rt); return p, p.Elem() }},
		{"a pointer to a pointer", func() (p, v reflect.Value) {
			p = reflect.New(reflect.PtrTo(d.rt))
			p.Elem().Set(reflect.New(d.rt))
			return p, p.Elem().Elem()
		}},
		{"a pointer to a nil pointer", func() (p, v reflect.Value) { p = reflect.New(reflect.PtrTo(d.rt)); return p, p.Elem() }},
	}
	if js {
		targets = targets[:2] // null makes pointers nil
	}
	type result struct {
		name string
		o    outcome
		v    reflect.Value
	}
	var all []result
	call := func(f form, in []byte, tg target) {
		p, v := tg.mk()
		o := try(func() ([]byte, error) { return nil, f.dec(append([]byte{}, in...), p.Interface()) })
		name := fmt.Sprintf("the decoder of %s into %s", f.name, tg.how)
		if f.must && o.err != nil {
			t.Fatalf("impossible")
		}
		all = append(all, result{name, o, v})
		if len(all) > 1 {
			a := all[0]
			if a.o.failed() != o.failed() || a.o.failed() && !f.must && (a.o.panik == nil) != (o.panik == nil) {
				t.Fatalf("%s: %v\n%s: %v\n input %x %q (%s)\n%v", a.name, a.o, name, o, clip(in), clip(in), how, d)
			}
			if !o.failed() {
				x, y := derefAll(a.v), derefAll(v)
				if x.IsValid() != y.IsValid() {
					t.Fatalf("%s: %s\n%s: %s\n input %x (%s)\n%v", a.name, dump(a.v), name, dump(v), clip(in), how, d)
				}
				if x.IsValid() {
					if s := same(x, y, ""); s != "" {
						t.Fatalf("%s and %s differ at %s\n input %x %q (%s)\n%v", a.name, name, s, clip(in), clip(in), how, d)
					}
				}
			}
		}
	}
	for _, tg := range targets {
		for _, f := range bare {
			call(f, bz, tg)
		}
		for _, f := range prefixed {
			if badFrame && f.enc == nil || badFrame && f.name[len(f.name)-6:] == "Writer" {
				continue // the reader forms leave what follows the message
			}
			call(f, framed, tg)
		}
	}
	ev.count(len(bz) > 1, caseFP(d.rt, framed), func() string { return fmt.Sprintf("%s: %x into %v", how, clip(framed), typeStr(d.rt)) },
		fmt.Sprintf("json:%v", js), fmt.Sprintf("failed:%v", all[0].o.failed()), fmt.Sprintf("package:%v", len(d.w.ord) == 0))
	// Without a pointer every form refuses.
	if d.rv.IsValid() && d.rt.Kind() != reflect.Ptr {
		for _, f := range append(append([]form{}, bare...), prefixed...) {
			in := bz
			if f.dec == nil {
				continue
			}
			if len(prefixed) > 0 && (len(bare) == 0 || bytes.Contains([]byte(f.name), []byte("Prefixed"))) {
				in = framed
			}
			o := try(func() ([]byte, error) { return nil, f.dec(in, d.rv.Interface()) })
			if !o.failed() || f.must && o.panik == nil {
				t.Fatalf("the decoder of %s into a %v that isn't a pointer: %v", f.name, d.rt, o)
			}
		}
	}
}

func derefAll(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

func TestC22(t *testing.T) {
	run(t, "encode", 15, checkFormsEnc)
	run(t, "decode", 20, checkFormsDec)
	run(t, "limits", 4, checkFormsLimit)
}
