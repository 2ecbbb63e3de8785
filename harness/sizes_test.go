package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// Values of sizes around the powers of two at which lengths take one more byte
// or a limit is likely to sit. Their content comes from a drawn seed.

type sizedIface interface{ Sized() }

type SizedC struct {
	B []byte
	S string
}

func (SizedC) Sized() {}

type SizedB []byte

func (SizedB) Sized() {}

type sizedInner struct {
	A int8
	B []byte
	C string
}

func sizedWorld() *World {
	w := emptyWorld()
	w.cdc.RegisterInterface((*sizedIface)(nil), nil)
	w.cdc.RegisterConcrete(SizedC{}, "sized/C", nil)
	w.cdc.RegisterConcrete(SizedB{}, "sized/B", nil)
	return w
}

var sizeTable = []int{1 << 7, 1 << 8, 1 << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 21, 1 << 22}

func drawSize(t *rapid.T, max int) int {
	var n int
	if thorough && chance(t, 40, "huge") {
		n = 1 << uint(23+pick(t, 3, "bit"))
	} else {
		if chance(t, 4, "dict") {
			n = pickFrom(t, dict.sizes, "dictsize")
		} else {
			n = pickFrom(t, sizeTable, "size")
		}
	}
	if n > max {
		n = max >> uint(pick(t, 4, "less"))
	}
	if pick(t, 3, "odd") == 2 {
		n += pick(t, n/3, "plus")
	} else if n += pick(t, 12, "near") - 9; n < 4 {
		n = 4
	}
	return n
}

func noise(seed uint64, n int) []byte {
	b := make([]byte, n+8)
	for i := 0; i < n; i += 8 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		for j := 0; j < 8; j++ {
			b[i+j] = byte(z >> uint(8*j))
		}
	}
	return b[:n]
}

func text(b []byte) string {
	for i := range b {
		b[i] = ' ' + b[i]%90
		if b[i] == '\\' || b[i] == '"' || b[i] == '<' || b[i] == '>' || b[i] == '&' {
			b[i] = 'q'
		}
	}
	return string(b)
}

// shapes runs a sub-check with wide and deep values only, which are cheap.
func shapes(f func(*rapid.T)) func(*rapid.T) {
	return func(t *rapid.T) {
		onlyShapes = true
		defer func() { onlyShapes = false }()
		f(t)
	}
}

var onlyShapes bool

// drawSized draws a value. exact reports whether the reference encoders know it
// (they don't know the types registered in sizedWorld).
func drawSized(t *rapid.T) (kind string, rv reflect.Value, exact bool) {
	seed := rapid.Uint64Range(0, 1<<20).Draw(t, "seed")
	raw := func() []byte { return noise(seed, drawSize(t, 1<<25)) }
	str := func() string { return text(raw()) }
	n := func() int { return drawSize(t, 1<<17) }
	var v interface{}
	exact = true
	k := 17 + pick(t, 4, "shape")
	if !onlyShapes {
		k = pick(t, 22, "kind")
	}
	switch k {
	case 17, 18:
		return "wide", drawWideStruct(t, seed), true
	case 19, 20:
		return "deep", drawDeep(t, seed), true
	case 0:
		kind, v = "string field", struct {
			A int
			S string
			B int8
		}{1, str(), 2}
	case 1:
		kind, v = "bytes field", struct {
			B MyBytes
			C uint
		}{raw(), 7}
	case 2:
		kind, v = "nested", struct{ P *struct{ X sizedInner } }{&struct{ X sizedInner }{sizedInner{1, raw(), "after"}}}
	case 3:
		l := make([]int64, n())
		for i, b := range noise(seed, len(l)) {
			l[i] = int64(b) << (uint(b) % 57)
		}
		kind, v = "int64 list", struct {
			L []int64
			X string
		}{l, "x"}
	case 4:
		l := make([]bool, n())
		for i, b := range noise(seed, len(l)) {
			l[i] = b&1 == 1
		}
		kind, v = "bool list", struct{ L []bool }{l}
	case 5:
		l := make([]string, n())
		for i, b := range noise(seed, len(l)) {
			l[i] = "abcdefgh"[:b&7]
		}
		kind, v = "string list", struct {
			L []string
			X int
		}{l, 3}
	case 6:
		l := make([]sizedInner, n()/4+1)
		for i, b := range noise(seed, len(l)) {
			l[i].A = int8(b)
		}
		kind, v = "struct list", struct {
			L []sizedInner
			X int
		}{l, 3}
	case 7:
		l := make([]*sizedInner, n()/4+1)
		for i, b := range noise(seed, len(l)) {
			if b&3 != 0 {
				l[i] = &sizedInner{int8(b), nil, "s"}
			}
		}
		kind, v = "pointer list", struct{ L []*sizedInner }{l}
	case 8:
		kind, v = "list of bytes", struct{ L [][]byte }{[][]byte{{1}, raw(), nil, {2}}}
	case 9:
		kind, v, exact = "interface", struct{ I sizedIface }{SizedC{raw(), "tail"}}, false
	case 10:
		kind, v, exact = "interface list", struct{ L []sizedIface }{[]sizedIface{SizedB{1}, SizedB(raw()), SizedC{nil, str()}}}, false
	case 11:
		kind, v = "top bytes", raw()
	case 12:
		kind, v = "top string", str()
	case 13:
		l := make([]int8, n())
		for i, b := range noise(seed, len(l)) {
			l[i] = int8(b)
		}
		kind, v = "top int8 list", l
	case 14:
		l := make([][]byte, n()/4+1)
		for i, b := range noise(seed, len(l)) {
			if b&7 != 0 {
				l[i] = []byte{b, b}
			}
		}
		kind, v = "top list of bytes", l
	case 15:
		a := reflect.New(reflect.ArrayOf(pickFrom(t, []int{255, 256, 16384, 65536, 1 << 20}, "alen"), tof(byte(0)))).Elem()
		reflect.Copy(a, reflect.ValueOf(noise(seed, a.Len())))
		if pick(t, 2, "ptr") == 0 {
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: a.Type()}, {Name: "G", Type: tof(0)}})).Elem()
			s.Field(0).Set(a)
			s.Field(1).SetInt(5)
			return "byte array", s, true
		}
		return "top byte array", a, true
	case 16:
		a := reflect.New(reflect.ArrayOf(pickFrom(t, []int{255, 256, 16384, 65536}, "alen"), tof(int32(0)))).Elem()
		for i, b := range noise(seed, a.Len()) {
			a.Index(i).SetInt(int64(b) << 20)
		}
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: a.Type()}, {Name: "G", Type: tof(0)}})).Elem()
		s.Field(0).Set(a)
		return "int32 array", s, true
	default:
		kind, v, exact = "top concrete", SizedC{raw(), str()}, false
	}
	rv = reflect.New(reflect.TypeOf(v)).Elem()
	rv.Set(reflect.ValueOf(v))
	return
}

// wideTypes are structs of many fields, by their number.
var wideTypes = map[int]reflect.Type{}

func wideType(n int) reflect.Type {
	if rt := wideTypes[n]; rt != nil {
		return rt
	}
	kinds := []reflect.Type{tof(int8(0)), tof(""), tof([]byte{}), tof(false), tof(&sizedInner{}), tof([]string{}), tof(uint32(0)), tof([]int16{}), tof(sizedInner{}), tof([2]uint16{}), tof(new(int64)), tof(0)}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: kinds[(i*7+i/5)%len(kinds)]}
		if i%13 == 5 {
			f.Tag = `json:"-"`
		} else if i%17 == 3 {
			f.Tag = `json:",omitempty"`
		} else if i%19 == 7 {
			f.Tag = `amino:"write_empty"`
		}
		fs = append(fs, f)
	}
	rt := reflect.StructOf(fs)
	wideTypes[n] = rt
	return rt
}

// drawWideStruct draws a struct of many fields, most of them empty.
func drawWideStruct(t *rapid.T, seed uint64) reflect.Value {
	n := pickFrom(t, []int{17, 20, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300, 600, 1025, 2060}, "fields")
	if chance(t, 4, "dict") {
		if n = 1 + pickFrom(t, dict.lens, "dictfields"); n > 2100 {
			n = 2100
		}
	}
	rv := reflect.New(wideType(n)).Elem()
	v := newV(emptyWorld(), true)
	b := 300
	v.budget = &b
	few := pick(t, 2, "few") == 0
	for i, x := range noise(seed, n) {
		if few && (i == n-1 || i == n-2 || int(x) < 4000/n) || !few && x < 128 {
			fillValue(t, rv.Field(i), v)
			if b < 100 {
				b = 100
			}
			if !few && i > 40 {
				few = true
			}
		}
	}
	return rv
}

type sizedDeep struct {
	V int8
	N *sizedDeep
	L []sizedDeep
	M []*sizedDeep
	A [1]*sizedDeep
	S string
}

// drawDeep draws a chain of values, one in the other.
func drawDeep(t *rapid.T, seed uint64) reflect.Value {
	n := pickFrom(t, []int{8, 10, 12, 16, 17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 300, 400}, "levels")
	if chance(t, 4, "dict") {
		if n = 1 + pickFrom(t, dict.lens, "dictlevels"); n > 400 {
			n = 400
		}
	}
	way := pick(t, 5, "way")
	top := &sizedDeep{S: "end"}
	for i, x := range noise(seed, n) {
		d := &sizedDeep{}
		if x&3 == 0 {
			d.V = int8(x)
		}
		if x&12 == 0 {
			d.S = "s"
		}
		k := way
		if way == 4 {
			k = i % 4
		}
		switch k {
		case 0:
			d.N = top
		case 1:
			d.L = []sizedDeep{*top}
		case 2:
			d.M = []*sizedDeep{top}
		default:
			d.A[0] = top
		}
		top = d
	}
	return reflect.ValueOf(top).Elem()
}

// sizedCase encodes a drawn value, against the reference encoder where it can.
func sizedCase(t *rapid.T) (w *World, kind string, rv reflect.Value, bz []byte) {
	kind, rv, exact := drawSized(t)
	w = sizedWorld()
	o := marshalBin(w.cdc, rv.Interface())
	if o.failed() {
		t.Fatalf("%s: encoding failed: %v", kind, o)
	}
	ev.count(len(o.bz) > 100, o.bz, func() string { return fmt.Sprintf("%s, %d bytes = %x", kind, len(o.bz), clip(o.bz)) }, "sized:"+kind, fmt.Sprintf("sized:2^%d bytes", bitLen(len(o.bz))))
	if exact {
		want, err := w.encTop(rv)
		must(err)
		if !bytes.Equal(want, o.bz) {
			t.Fatalf("%s: encoding differs from the reference\n got  %d bytes %x\n want %d bytes %x", kind, len(o.bz), clip(o.bz), len(want), clip(want))
		}
	}
	return w, kind, rv, o.bz
}

func bitLen(n int) (b int) {
	for ; n > 0; n >>= 1 {
		b++
	}
	return
}

// sameSized compares up to nil and empty slices and nil pointers to defaults.
func (w *World) sameSized(kind string, a, b reflect.Value) string {
	if kind == "interface" || kind == "interface list" || kind == "top concrete" {
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return kind
		}
		return ""
	}
	return diff(w.normTop(a, a.Type()), b)
}

func checkSizedRoundTrip(t *rapid.T) {
	w, kind, rv, bz := sizedCase(t)
	got, o := unmarshalBin(w.cdc, bz, rv.Type())
	if o.failed() {
		t.Fatalf("%s: decoding %d bytes failed: %v", kind, len(bz), o)
	}
	if s := w.sameSized(kind, rv, got); s != "" {
		t.Fatalf("%s: %d bytes decoded differently at %s", kind, len(bz), s)
	}
}

func checkSizedFormat(t *rapid.T) { sizedCase(t) }

func checkSizedFrames(t *rapid.T) {
	w, kind, rv, bz := sizedCase(t)
	want := frame(bz)
	o := try(func() ([]byte, error) { return w.cdc.MarshalBinaryLengthPrefixed(rv.Interface()) })
	if o.failed() || !bytes.Equal(o.bz, want) {
		t.Fatalf("%s: framed %v, want %d bytes", kind, o, len(want))
	}
	var buf bytes.Buffer
	n := int64(0)
	o = try(func() (_ []byte, err error) {
		n, err = w.cdc.MarshalBinaryLengthPrefixedWriter(&buf, rv.Interface())
		return
	})
	if o.failed() || n != int64(len(want)) || !bytes.Equal(buf.Bytes(), want) {
		t.Fatalf("%s: writer form: %v, n=%d, %d bytes of %d", kind, o, n, buf.Len(), len(want))
	}
	p := reflect.New(rv.Type())
	o = try(func() ([]byte, error) { return nil, w.cdc.UnmarshalBinaryLengthPrefixed(want, p.Interface()) })
	if o.failed() || w.sameSized(kind, rv, p.Elem()) != "" {
		t.Fatalf("%s: %d bytes, decoding the framed form: %v", kind, len(want), o)
	}
	limit := pickFrom(t, []int64{0, int64(len(want)), int64(len(want)) - 1}, "limit")
	r := drawReader(t, append(want, 1, 2, 3), nil)
	got, n, o := readMsg(w.cdc, r, rv.Type(), limit)
	if n != int64(r.taken) || o.panik != nil {
		t.Fatalf("%s: n=%d, taken %d, %v", kind, n, r.taken, o)
	}
	if limit == int64(len(want))-1 {
		if o.err == nil || n > 10 {
			t.Fatalf("%s: %d bytes over the limit: n=%d %v", kind, len(want), n, o)
		}
		return
	}
	if o.failed() || r.taken != len(want) || w.sameSized(kind, rv, got) != "" {
		t.Fatalf("%s: reading %d bytes took %d: %v", kind, len(want), r.taken, o)
	}
}

func checkSizedJSON(t *rapid.T)       { sizedJSON(t, false) }
func checkSizedJSONFormat(t *rapid.T) { sizedJSON(t, true) }

func sizedJSON(t *rapid.T, format bool) {
	kind, rv, exact := drawSized(t)
	w := sizedWorld()
	if format && !exact {
		return
	}
	o := marshalJSON(w.cdc, rv.Interface())
	if o.failed() {
		t.Fatalf("%s: encoding failed: %v", kind, o)
	}
	ev.count(len(o.bz) > 100, o.bz, func() string { return fmt.Sprintf("%s, %d bytes", kind, len(o.bz)) }, "sized:"+kind)
	if !json.Valid(o.bz) {
		t.Fatalf("%s: not JSON: %s", kind, clip(o.bz))
	}
	if format {
		want, err := w.encTopJSON(rv)
		must(err)
		if j, ok := parseJSON(o.bz); !ok || !want.sameAs(j) {
			t.Fatalf("%s: %d bytes, differ from the reference\n got  %s\n want %s", kind, len(o.bz), clip(o.bz), clip(want.bytes()))
		}
		return
	}
	got, do := unmarshalJSON(w.cdc, o.bz, rv.Type())
	if do.failed() {
		t.Fatalf("%s: decoding %d bytes failed: %v", kind, len(o.bz), do)
	}
	want := rv
	if kind != "interface" && kind != "interface list" && kind != "top concrete" {
		want = w.normTopJSON(rv, rv.Type())
		if s := diff(want, got); s != "" {
			t.Fatalf("%s: %d bytes decoded differently at %s", kind, len(o.bz), s)
		}
	} else if !reflect.DeepEqual(want.Interface(), got.Interface()) {
		t.Fatalf("%s: %d bytes decoded differently", kind, len(o.bz))
	}
}

// checkSizedEvolution: large fields that the reader doesn't know are skipped.
func checkSizedEvolution(t *rapid.T) {
	w, kind, rv, bz := sizedCase(t)
	if rv.Kind() != reflect.Struct || kind == "top concrete" {
		return
	}
	fs := []reflect.StructField{{Name: "Z", Type: tof(int16(0))}}
	old := reflect.StructOf(fs)
	for i := 0; i < rv.NumField(); i++ {
		fs = append(fs, rv.Type().Field(i))
	}
	nv := reflect.New(reflect.StructOf(fs)).Elem()
	nv.Field(0).SetInt(int64(len(bz) % 30000))
	for i := 0; i < rv.NumField(); i++ {
		nv.Field(i + 1).Set(rv.Field(i))
	}
	o := marshalBin(w.cdc, nv.Interface())
	if o.failed() {
		t.Fatalf("%s: %v", kind, o)
	}
	got, do := unmarshalBin(w.cdc, o.bz, old)
	if do.failed() || got.Field(0).Int() != int64(len(bz)%30000) {
		t.Fatalf("%s: %d bytes with unknown fields: %v %v", kind, len(o.bz), do, got)
	}
}

func checkSizedCopy(t *rapid.T) {
	kind, src, _ := drawSized(t)
	snap := src.Interface()
	ev.count(true, []byte(fmt.Sprint(kind, src.Type().Size())), func() string { return "sized: " + kind }, "sized:"+kind)
	var got interface{}
	if o := try(func() ([]byte, error) { got = amino.DeepCopy(snap); return nil, nil }); o.panik != nil {
		t.Fatalf("%s: DeepCopy panicked: %v", kind, o.panik)
	}
	if !reflect.DeepEqual(snap, got) {
		t.Fatalf("%s: the copy differs", kind)
	}
	var a, b []span
	cp := addressable(reflect.ValueOf(got))
	spans(src, "", &a)
	spans(cp, "", &b)
	if s := overlap(a, b); s != "" {
		t.Fatalf("%s: source and copy share memory: %s", kind, s)
	}
}

func checkSizedPrims(t *rapid.T) {
	raw := noise(rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), drawSize(t, 1<<25))
	want := frameStr(0, string(raw))
	ev.count(true, want, func() string { return fmt.Sprintf("%d bytes", len(raw)) }, "sized")
	var b, s bytes.Buffer
	e1, e2 := amino.EncodeByteSlice(&b, raw), amino.EncodeString(&s, string(raw))
	if e1 != nil || e2 != nil || !bytes.Equal(b.Bytes(), want) || !bytes.Equal(s.Bytes(), want) || amino.ByteSliceSize(raw) != len(want) {
		t.Fatalf("%d bytes: %v %v, wrote %d and %d, size function %d, want %d", len(raw), e1, e2, b.Len(), s.Len(), amino.ByteSliceSize(raw), len(want))
	}
	in := append(want, 1, 2)
	bz, n, err := amino.DecodeByteSlice(in)
	if err != nil || n != len(want) || !bytes.Equal(bz, raw) {
		t.Fatalf("DecodeByteSlice of %d bytes: %d %v", len(want), n, err)
	}
	st, n, err := amino.DecodeString(in)
	if err != nil || n != len(want) || st != string(raw) {
		t.Fatalf("DecodeString of %d bytes: %d %v", len(want), n, err)
	}
	cut := len(want) - 1 - pick(t, len(want)/2, "cut")
	if _, _, err := amino.DecodeByteSlice(want[:cut]); err == nil {
		t.Fatalf("DecodeByteSlice of %d bytes of %d: no error", cut, len(want))
	}
	if _, _, err := amino.DecodeString(want[:cut]); err == nil {
		t.Fatalf("DecodeString of %d bytes of %d: no error", cut, len(want))
	}
}
