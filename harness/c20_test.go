package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// withSpare gives every slice of the value spare capacity with data in it.
func withSpare(t *rapid.T, v reflect.Value, backs *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			withSpare(t, v.Elem(), backs)
		}
	case reflect.Interface:
		if !v.IsNil() {
			x := addressable(v.Elem())
			withSpare(t, x, backs)
			v.Set(x)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		if n <= 64 && pick(t, 2, "spare") == 1 {
			s := reflect.MakeSlice(v.Type(), n+9, n+9)
			reflect.Copy(s, v)
			for i := n; i < n+9; i++ {
				if s.Index(i).Kind() == reflect.Uint8 {
					s.Index(i).SetUint(0xA5)
				} else if n > 0 {
					s.Index(i).Set(s.Index(i - n))
				}
			}
			*backs = append(*backs, s)
			v.Set(s.Slice3(0, n, n+9))
		}
		fallthrough
	case reflect.Array:
		if isScalarKind(v.Type().Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			withSpare(t, v.Index(i), backs)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := addressable(v.MapIndex(k))
			withSpare(t, x, backs)
			v.SetMapIndex(k, x)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			withSpare(t, settable(v.Field(i)), backs)
		}
	}
}

// selfOverlap finds memory that two slices or pointers of one value share.
func selfOverlap(ss []span) string {
	ss = append([]span{}, ss...)
	sort.Slice(ss, func(i, j int) bool { return ss[i].lo < ss[j].lo })
	for i := 1; i < len(ss); i++ {
		if ss[i].lo < ss[i-1].hi {
			return ss[i-1].what + " and " + ss[i].what
		}
	}
	return ""
}

func bytesSpan(b []byte, what string) []span {
	if cap(b) == 0 {
		return nil
	}
	p := reflect.ValueOf(b).Pointer()
	return []span{{p, p + uintptr(cap(b)), what}}
}

var encForms = []string{"bare", "prefixed", "writer", "json", "indent"}

func encodeBy(cdc *amino.Codec, form int, v interface{}) outcome {
	return try(func() ([]byte, error) {
		switch form {
		case 0:
			return cdc.MarshalBinaryBare(v)
		case 1:
			return cdc.MarshalBinaryLengthPrefixed(v)
		case 2:
			var b bytes.Buffer
			_, err := cdc.MarshalBinaryLengthPrefixedWriter(&b, v)
			return b.Bytes(), err
		case 3:
			return cdc.MarshalJSON(v)
		default:
			return cdc.MarshalJSONIndent(v, "", " ")
		}
	})
}

// checkEncodePure: encoding leaves the value alone, and what it returns is
// nobody else's memory.
func checkEncodePure(t *rapid.T) {
	js := pick(t, 3, "json") == 2
	d := drawCase(t, js)
	if topNil(d.rv) {
		return
	}
	var backs []reflect.Value
	withSpare(t, d.rv, &backs)
	snap := exact(d.rv)
	var backSnaps []reflect.Value
	for _, b := range backs {
		backSnaps = append(backSnaps, exact(b))
	}
	var mem []span
	spans(d.rv, "value", &mem)
	unchanged := func(when string) {
		t.Helper()
		if s := same(snap, d.rv, ""); s != "" {
			t.Fatalf("%s changed the value at %s\n%v", when, s, d)
		}
		for i, b := range backs {
			if s := same(backSnaps[i], b, ""); s != "" {
				t.Fatalf("%s wrote into the spare capacity of a slice: %s\n%v", when, s, d)
			}
		}
	}
	type res struct {
		form     string
		bz, copy []byte
	}
	var got []res
	n := 1 + pick(t, 4, "calls")
	for i := 0; i < n; i++ {
		form := pick(t, 3, "form")
		if js {
			form = 3 + pick(t, 2, "jform")
		}
		o := encodeBy(d.w.cdc, form, asArg(t, d.rv))
		if o.failed() {
			t.Fatalf("%s encoding failed: %v\n%v", encForms[form], o, d)
		}
		unchanged(encForms[form] + " encoding")
		for _, g := range got {
			if !bytes.Equal(g.bz, g.copy) {
				t.Fatalf("%s encoding changed the bytes returned by an earlier %s encoding\n%v", encForms[form], g.form, d)
			}
			if s := overlap(bytesSpan(g.bz, "earlier result"), bytesSpan(o.bz, "result")); s != "" {
				t.Fatalf("%s encoding: %s share memory\n%v", encForms[form], s, d)
			}
		}
		if s := overlap(mem, bytesSpan(o.bz, "result")); s != "" {
			t.Fatalf("%s encoding: %s share memory\n%v", encForms[form], s, d)
		}
		got = append(got, res{encForms[form], o.bz, append([]byte{}, o.bz...)})
		if pick(t, 3, "scribble") == 0 {
			full := o.bz[:cap(o.bz)]
			for j := range full {
				full[j] ^= 0xff
			}
			unchanged("writing into the result of " + encForms[form] + " encoding")
			got[len(got)-1].copy = append([]byte{}, o.bz...)
		}
	}
	first := got[0].copy
	ev.count(nontrivBin(d.rt, first), caseFP(d.rt, first), func() string { return fmt.Sprintf("%d calls on %v", n, d) }, fmt.Sprintf("json:%v", js), fmt.Sprintf("spare:%v", len(backs) > 0))
}

// inBuffer puts the input in the middle of a larger buffer.
func inBuffer(t *rapid.T, bz []byte) (in, whole []byte) {
	pre, post := pick(t, 9, "pre"), pick(t, 17, "post")
	whole = make([]byte, pre+len(bz)+post)
	for i := range whole {
		whole[i] = 0x5A
	}
	copy(whole[pre:], bz)
	return whole[pre : pre+len(bz)], whole
}

// checkDecodePure: decoding leaves the input alone, and the value shares
// nothing with it, with other decoded values, or with the codec.
func checkDecodePure(t *rapid.T) {
	js := pick(t, 3, "json") == 2
	d := drawCase(t, js)
	if topNil(d.rv) {
		return
	}
	entry := pick(t, 3, "entry")
	var o outcome
	if js {
		entry = 3
		o = marshalJSON(d.w.cdc, d.rv.Interface())
	} else {
		o = encodeBy(d.w.cdc, entry0(entry), d.rv.Interface())
	}
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	bz, good := o.bz, true
	if pick(t, 5, "bad") == 4 {
		if js {
			bz, _ = corruptJSON(t, d.w, bz)
		} else {
			bz, _ = corrupt(t, bz)
		}
		good = false
	}
	cdc := d.w.fresh(nil)
	decode := func() (reflect.Value, outcome, []byte) {
		in, whole := inBuffer(t, bz)
		keep := append([]byte{}, whole...)
		p := reflect.New(d.rt)
		var o outcome
		if js {
			o = try(func() ([]byte, error) { return nil, cdc.UnmarshalJSON(in, p.Interface()) })
		} else {
			o = decodeBy(cdc, entry, in, p.Interface())
		}
		if !bytes.Equal(keep, whole) {
			t.Fatalf("decoding %x changed the input, or the bytes around it\n%v", clip(bz), d)
		}
		if good && o.failed() {
			t.Fatalf("decoding %x failed: %v\n%v", clip(bz), o, d)
		}
		return p.Elem(), o, whole
	}
	v1, o1, buf := decode()
	if o1.failed() {
		return
	}
	ev.count(nontrivBin(d.rt, bz), caseFP(d.rt, bz), func() string { return fmt.Sprintf("%x into %v", clip(bz), typeStr(d.rt)) }, fmt.Sprintf("json:%v", js), fmt.Sprintf("entry:%d", entry))
	snap := exact(v1)
	var m1 []span
	spans(v1, "value", &m1)
	if s := selfOverlap(m1); s != "" {
		t.Fatalf("in the value decoded from %x, %s share memory\n%v", clip(bz), s, d)
	}
	if s := overlap(m1, bytesSpan(buf, "input")); s != "" {
		t.Fatalf("%s share memory\n%v", s, d)
	}
	for i := range buf {
		buf[i] ^= byte(0xff)
	}
	if s := same(snap, v1, ""); s != "" {
		t.Fatalf("changing the input buffer changed the decoded value at %s\n input %x\n%v", s, clip(bz), d)
	}
	v2, o2, _ := decode()
	if o2.failed() {
		t.Fatalf("decoding %x a second time: %v\n%v", clip(bz), o2, d)
	}
	if s := same(snap, v1, ""); s != "" {
		t.Fatalf("a second decoding changed the first decoded value at %s\n%v", s, d)
	}
	if s := same(snap, v2, ""); s != "" {
		t.Fatalf("the second decoding differs at %s\n%v", s, d)
	}
	var m2 []span
	spans(v2, "value", &m2)
	if s := overlap(m1, m2); s != "" {
		t.Fatalf("two values decoded from %x: %s share memory\n%v", clip(bz), s, d)
	}
	scribble(v2)
	if s := same(snap, v1, ""); s != "" {
		t.Fatalf("changing the second decoded value changed the first at %s\n%v", s, d)
	}
	// What was done to a decoded value must not show up in later results.
	v3, o3, _ := decode()
	if o3.failed() {
		t.Fatalf("decoding %x a third time: %v\n%v", clip(bz), o3, d)
	}
	if s := same(snap, v3, ""); s != "" {
		t.Fatalf("changes to a decoded value show up in a later one at %s\n%v", s, d)
	}
	if good && !js {
		o := encodeBy(cdc, entry0(entry), d.rv.Interface())
		if o.failed() || !bytes.Equal(o.bz, bz) {
			t.Fatalf("changes to a decoded value show up in a later encoding: %v, was %x\n%v", o, bz, d)
		}
	}
}

// entry0 maps a decoding entry (bare, prefixed, reader) to an encoding form.
func entry0(e int) int {
	if e > 0 {
		return 1
	}
	return 0
}

// cleanExcluded zeroes what the codec doesn't look at, and reports whether
// there is a non-nil interface.
func cleanExcluded(v reflect.Value) (iface bool) {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && cleanExcluded(v.Elem())
	case reflect.Interface:
		return !v.IsNil()
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			iface = cleanExcluded(v.Index(i)) || iface
		}
	case reflect.Struct:
		if v.Type() == timeType || hasUnmarshalAmino(v.Type()) {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("json") == "-" {
				settable(v.Field(i)).Set(reflect.Zero(f.Type))
				continue
			}
			iface = cleanExcluded(v.Field(i)) || iface
		}
	}
	return
}

// oldSlices collects the slices and maps in a value, and copies of them.
func oldSlices(v reflect.Value, out *[][2]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			oldSlices(v.Elem(), out)
		}
	case reflect.Slice:
		if !v.IsNil() && isScalarKind(v.Type().Elem().Kind()) || v.Type() == tof([]string{}) {
			c := reflect.ValueOf(v.Interface()) // the header, not the variable
			*out = append(*out, [2]reflect.Value{c, exact(c)})
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			oldSlices(v.Index(i), out)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, v.MapIndex(k))
		}
		*out = append(*out, [2]reflect.Value{reflect.ValueOf(v.Interface()), c})
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			oldSlices(settable(v.Field(i)), out)
		}
	}
}

// checkDirty: decoding into a variable that holds data is decoding.
func checkDirty(t *rapid.T) {
	d := drawCase(t, false)
	if topNil(d.rv) {
		return
	}
	o := marshalBin(d.w.cdc, d.rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	bz := o.bz
	if pick(t, 4, "bad") == 3 {
		bz, _ = corrupt(t, bz)
	}
	fresh, fo := unmarshalBin(d.w.cdc, bz, d.rt)
	dirty := reflect.New(d.rt).Elem()
	switch pick(t, 3, "dirt") {
	case 0: // the value that was encoded, changed a little
		dirty.Set(clone(d.rv))
		for i, n := 0, pick(t, 3, "nmut"); i < n; i++ {
			mutate(t, dirty, newV(d.w, false), 3)
		}
	case 1:
		fillValue(t, dirty, newV(d.w, false))
	default:
		v := newV(d.w, false)
		v.compl = true
		fillValue(t, dirty, v)
	}
	// The dirty value itself may have been decoded.
	if pick(t, 3, "decoded") == 2 && !topNil(dirty) {
		if o := marshalBin(d.w.cdc, dirty.Interface()); !o.failed() {
			if v, o := unmarshalBin(d.w.cdc, o.bz, d.rt); !o.failed() {
				dirty.Set(v)
			}
		}
	}
	iface := cleanExcluded(dirty)
	was := dump(dirty)
	var olds [][2]reflect.Value
	oldSlices(dirty, &olds)
	do := try(func() ([]byte, error) { return nil, d.w.cdc.UnmarshalBinaryBare(bz, dirty.Addr().Interface()) })
	ev.count(nontrivBin(d.rt, bz) && was != dump(reflect.Zero(d.rt)), append(caseFP(d.rt, bz), was...), func() string {
		return fmt.Sprintf("%x into %s of %v", clip(bz), was, typeStr(d.rt))
	}, fmt.Sprintf("iface:%v", iface), fmt.Sprintf("error:%v", fo.failed()))
	if do.panik != nil {
		t.Fatalf("decoding %x into %s: %v\n%v", clip(bz), was, do, d)
	}
	for _, s := range olds {
		if e := same(s[1], s[0], ""); e != "" {
			t.Fatalf("decoding %x into %s wrote into a slice or map that was there: %s\n%v", clip(bz), was, e, d)
		}
	}
	if do.failed() != fo.failed() {
		if iface && do.failed() {
			return
		}
		t.Fatalf("decoding %x into %s: %v; into a fresh variable: %v\n%v", clip(bz), was, do, fo, d)
	}
	if fo.failed() {
		return
	}
	if s := diff(fresh, dirty); s != "" {
		t.Fatalf("decoding %x into %s differs from decoding into a fresh variable at %s\n got %s\n want %s\n%v", clip(bz), was, s, dump(dirty), dump(fresh), d)
	}
	if s := same(fresh, dirty, ""); s != "" {
		t.Fatalf("decoding %x into %s differs (nil or empty) from decoding into a fresh variable at %s\n got %s\n want %s\n%v", clip(bz), was, s, dump(dirty), dump(fresh), d)
	}
}

// numbers writes some of the base64 strings of a document as arrays of numbers.
func numbers(t *rapid.T, n *jnode) {
	for _, k := range n.kids {
		numbers(t, k)
	}
	if n.kind != 's' || len(n.raw) < 6 || n.raw[0] != '"' || pick(t, 3, "numbers") == 0 {
		return
	}
	b, err := base64.StdEncoding.DecodeString(n.raw[1 : len(n.raw)-1])
	if err != nil || len(b) > 100 {
		return
	}
	n.kind = 'a'
	for _, x := range b {
		n.kids = append(n.kids, scalar(fmt.Sprint(x)))
	}
}

// keepsOmitted tells whether decoding may leave fields of such a variable alone.
func keepsOmitted(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return false
	}
	seen[rt] = true
	if rt == tof(JEmb{}) { // its UnmarshalJSON leaves a field alone
		return true
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return keepsOmitted(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if strings.Contains(rt.Field(i).Tag.Get("json"), ",omitempty") || keepsOmitted(rt.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

const unclear = "unclear"

// keepOmitted sets dst to what decoding doc into a variable holding old gives,
// where fresh is what decoding it into a fresh one gives.
func keepOmitted(doc json.RawMessage, dst, fresh, old reflect.Value, in bool) (kept string) {
	dst.Set(fresh)
	rt := dst.Type()
	if rt == tof(JEmb{}) {
		return unclear
	}
	if string(bytes.TrimSpace(doc)) == "null" {
		return ""
	}
	and := func(k string) {
		if kept != unclear && k != "" {
			kept = k
		}
	}
	if rt.Kind() == reflect.Ptr {
		if old.IsNil() {
			return ""
		}
		dst.Set(reflect.New(rt.Elem()))
		return keepOmitted(doc, dst.Elem(), fresh.Elem(), old.Elem(), in)
	}
	if rt == timeType || hasUnmarshalAmino(rt) || reflect.PtrTo(rt).Implements(tof((*json.Unmarshaler)(nil)).Elem()) {
		return ""
	}
	switch rt.Kind() {
	case reflect.Array:
		var l []json.RawMessage
		if rt.Elem().Kind() == reflect.Uint8 || json.Unmarshal(doc, &l) != nil || len(l) != rt.Len() {
			return ""
		}
		for i := range l {
			and(keepOmitted(l[i], dst.Index(i), fresh.Index(i), old.Index(i), true))
		}
	case reflect.Struct:
		var m map[string]json.RawMessage
		if json.Unmarshal(doc, &m) != nil {
			return unclear
		}
		for _, f := range fieldsOf(rt) {
			i := f.idx
			v, ok := m[f.jname]
			switch {
			case ok:
				and(keepOmitted(v, dst.Field(i), fresh.Field(i), old.Field(i), true))
			case f.omit:
				dst.Field(i).Set(old.Field(i))
				if !old.Field(i).IsZero() {
					and(map[bool]string{true: "inside", false: "top"}[in])
				}
			}
		}
	}
	return
}

// checkDirtyJSON: as checkDirty; fields with omitempty that are missing may keep
// their contents.
func checkDirtyJSON(t *rapid.T) {
	d := drawCase(t, true)
	if topNil(d.rv) {
		return
	}
	o := marshalJSON(d.w.cdc, d.rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	bz := o.bz
	if n, ok := parseJSON(bz); ok && pick(t, 2, "form") == 1 {
		numbers(t, n)
		bz = n.bytes()
	}
	if pick(t, 4, "bad") == 3 {
		bz, _ = corruptJSON(t, d.w, bz)
	}
	fresh, fo := unmarshalJSON(d.w.cdc, bz, d.rt)
	dirty := reflect.New(d.rt).Elem()
	if pick(t, 2, "dirt") == 0 {
		dirty.Set(clone(d.rv))
		for i, n := 0, pick(t, 3, "nmut"); i < n; i++ {
			mutate(t, dirty, newV(d.w, true), 3)
		}
	} else {
		fillValue(t, dirty, newV(d.w, true))
	}
	cleanExcluded(dirty)
	was := dump(dirty)
	old := exact(dirty)
	var olds [][2]reflect.Value
	oldSlices(dirty, &olds)
	do := try(func() ([]byte, error) { return nil, d.w.cdc.UnmarshalJSON(bz, dirty.Addr().Interface()) })
	ev.count(nontrivJSON(bz) && was != dump(reflect.Zero(d.rt)), append(caseFP(d.rt, bz), was...), func() string {
		return fmt.Sprintf("%s into %s of %v", clip(bz), was, typeStr(d.rt))
	}, fmt.Sprintf("json error:%v", fo.failed()))
	if do.panik != nil {
		t.Fatalf("decoding %s into %s: %v\n%v", clip(bz), was, do, d)
	}
	for _, s := range olds {
		if e := same(s[1], s[0], ""); e != "" {
			t.Fatalf("decoding %s into %s wrote into a slice or map that was there: %s\n%v", clip(bz), was, e, d)
		}
	}
	if do.failed() != fo.failed() {
		t.Fatalf("decoding %s into %s: %v; into a fresh variable: %v\n%v", clip(bz), was, do, fo, d)
	}
	if fo.failed() {
		return
	}
	// Missing omitempty fields keep their contents, and nothing else does.
	want := fresh
	if keepsOmitted(d.rt, map[reflect.Type]bool{}) {
		doc := json.RawMessage(bz)
		if c := d.w.byT[d.rt]; c != nil {
			var x struct {
				Value json.RawMessage `json:"value"`
			}
			if json.Unmarshal(doc, &x) != nil {
				return
			}
			doc = x.Value
		}
		want = reflect.New(d.rt).Elem()
		if kept := keepOmitted(doc, want, fresh, old, false); kept == unclear {
			return
		} else if kept != "" {
			ev.class("kept:"+kept, 1)
		}
	}
	cleanExcluded(dirty)
	if s := diff(want, dirty); s != "" {
		fresh := want
		t.Fatalf("decoding %s into %s differs from decoding into a fresh variable at %s\n got %s\n want %s\n%v", clip(bz), was, s, dump(dirty), dump(fresh), d)
	}
}

// checkPrimPure: the exported primitives copy.
func checkPrimPure(t *rapid.T) {
	body := drawBytes(t, drawLen(t))
	ev.count(len(body) > 0, body, func() string { return fmt.Sprintf("%x", clip(body)) })
	var b bytes.Buffer
	keep := append([]byte{}, body...)
	if err := amino.EncodeByteSlice(&b, body); err != nil || !bytes.Equal(keep, body) {
		t.Fatalf("EncodeByteSlice(%x): %v, argument now %x", keep, err, body)
	}
	for i, n := 0, pick(t, 5, "more"); i < n; i++ {
		b.WriteByte(0x33)
	}
	buf := b.Bytes()
	bz, n, err := amino.DecodeByteSlice(buf)
	s, n2, err2 := amino.DecodeString(buf)
	if err != nil || err2 != nil || n != n2 {
		t.Fatal(n, err, n2, err2)
	}
	if s := overlap(bytesSpan(bz, "result"), bytesSpan(buf, "input")); s != "" {
		t.Fatalf("DecodeByteSlice: %s share memory", s)
	}
	for i := range buf {
		buf[i] ^= 0xff
	}
	if !bytes.Equal(bz, keep) || s != string(keep) {
		t.Fatalf("changing the input of DecodeByteSlice or DecodeString changed the result %x %x, was %x", bz, s, keep)
	}
}

func TestC20(t *testing.T) {
	run(t, "encode", 12, checkEncodePure)
	run(t, "decode", 12, checkDecodePure)
	run(t, "dirty", 15, checkDirty)
	run(t, "dirty_JSON", 10, checkDirtyJSON)
	run(t, "primitives", 5, checkPrimPure)
}
