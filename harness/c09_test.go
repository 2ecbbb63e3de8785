package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Lists in lists, as far as there are any: of byte lists and of pointers.
var nestedLists = []reflect.Type{tof([][][]byte{}), tof([][2][]byte{}), tof([2][][3]byte{}), tof([1][2][2]byte{}), tof([][2][3]byte{}), tof([2][][]byte{}), tof([]*[2]string{}), tof([]*[]string{}),
	tof([2]*[1]Leaf{}), tof([2]*[]Leaf{}), tof([]*[2]*Leaf{}), tof([]*[3]int{}), tof([]*[]uint16{}), tof([]*[2]time.Time{}), tof([][][2][]byte{}), tof([]*[2]*[2]string{}),
	tof(struct {
		A [][2][]byte
		B *[2]*[1]Leaf
		C int
	}{}), tof(struct {
		X int
		A [][2][]byte
		B []*[2]string
		C [2]*[]Leaf
	}{}), tof([]struct{ L [2]*[2]string }{})}

// badInput draws a case and bytes that are a corruption of its encoding.
func badInput(t *rapid.T) (d drawn, good, bz []byte, how string) {
	d = drawCase(t, false)
	if chance(t, 8, "lists") {
		d.rt = pickFrom(t, nestedLists, "lists")
		d.rv = drawValue(t, d.rt, newV(d.w, false))
	}
	if chance(t, 4, "ifaceTop") && len(d.w.concs) > 0 {
		// Decode a registered concrete value into an interface variable.
		it := pickFrom(t, ifaceTypes, "it")
		if us := d.w.usable(it); len(us) > 0 {
			c := pickFrom(t, us, "c")
			rv := drawValue(t, c.T, newV(d.w, false))
			var err error
			good, err = d.w.encTop(rv)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			d.rt, d.rv = it, rv
		}
	}
	if good == nil && !topNil(d.rv) {
		var err error
		good, err = d.w.encTop(d.rv)
		if err != nil {
			t.Fatalf("reference: %v", err)
		}
	}
	if pick(t, 8, "soup") == 7 {
		bz, how = soup(t), "soup"
		if c := d.w.byT[d.rt]; c != nil && pick(t, 2, "pfx") == 0 {
			bz = append(append([]byte{}, c.Prefix[:]...), bz...)
		}
		return
	}
	bz, how = corrupt(t, good)
	return
}

// checkBad: what the reference rejects is rejected; with accept set, what it
// accepts is accepted with the same meaning.
func checkBad(t *rapid.T, accept bool) {
	d, good, bz, how := badInput(t)
	orig := append([]byte{}, bz...)
	want, rerr := d.w.decTop(bz, d.rt)
	got, o := unmarshalBin(d.w.cdc, bz, d.rt)
	if o.panik != nil {
		t.Fatalf("decoding %x (%s of %x) panicked: %v\n%v", orig, how, good, o.panik, d)
	}
	if !bytes.Equal(orig, bz) {
		t.Fatalf("decoding changed its input\n%v", d)
	}
	if rerr != nil {
		ev.count(true, caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %x into %v: %v", how, bz, d.rt, rerr) }, "rejected", "how:"+how)
		if o.err == nil {
			t.Fatalf("malformed input accepted\n input %x (%s of %x)\n reference: %v\n got %s\n%v", orig, how, good, rerr, dump(got), d)
		}
		return
	}
	ev.count(!bytes.Equal(good, bz), caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %x into %v is valid", how, bz, d.rt) }, "valid", "how:"+how)
	if !accept {
		return
	}
	if o.err != nil {
		t.Fatalf("valid input rejected\n input %x (%s of %x)\n error %v\n reference value %s\n%v", orig, how, good, o.err, dump(want), d)
	}
	if s := diff(want, got); s != "" {
		t.Fatalf("input decoded to something else at %s\n input %x (%s of %x)\n got %s\n want %s\n%v", s, orig, how, good, dump(got), dump(want), d)
	}
}

// checkFramed: the length-prefixed forms with lengths that don't fit.
func checkFramed(t *rapid.T) {
	d := drawCase(t, false)
	if topNil(d.rv) {
		return
	}
	body, err := d.w.encTop(d.rv)
	if err != nil {
		t.Fatalf("reference: %v", err)
	}
	good := append(uvarint(uint64(len(body))), body...)
	pre := len(good) - len(body)
	var bz []byte
	how := ""
	switch pick(t, 9, "frame") {
	case 0: // body cut
		if len(body) == 0 {
			return
		}
		bz, how = good[:pre+pick(t, len(body), "cut")], "body-cut"
	case 1:
		bz, how = append(append([]byte{}, good...), drawBytes(t, 1+pick(t, 3, "n"))...), "trailing"
	case 2: // a longer length, bytes missing
		bz, how = append(uvarint(uint64(len(body)+1+pick(t, 300, "more"))), body...), "length-more"
	case 3:
		if len(body) == 0 {
			return
		}
		bz, how = append(uvarint(uint64(pick(t, len(body), "less"))), body...), "length-less"
	case 4:
		bz, how = append(uvarint(pickFrom(t, bigClaims, "claim")), body...), "length-huge"
	case 5:
		bz, how = append([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}, body...), "length-overflow"
	case 6:
		bz, how = good[:pick(t, pre, "cut")], "prefix-cut"
	case 7: // inside the body
		b2, _ := corrupt(t, body)
		bz, how = append(uvarint(uint64(len(b2))), b2...), "body-corrupt"
		if _, err := d.w.decTop(b2, d.rt); err == nil {
			return
		}
	default:
		bz, how = []byte{0x80, 0x80}, "prefix-open"
	}
	ev.count(true, caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %x into %v", how, bz, d.rt) }, "framed:"+how)
	p := reflect.New(d.rt)
	o := try(func() ([]byte, error) { return nil, d.w.cdc.UnmarshalBinaryLengthPrefixed(bz, p.Interface()) })
	if o.err == nil {
		t.Fatalf("length-prefixed %x (%s of %x): %v\n%v", bz, how, good, o, d)
	}
	if how == "trailing" || how == "length-less" {
		return // a reader doesn't look further
	}
	p = reflect.New(d.rt)
	o = try(func() ([]byte, error) {
		_, err := d.w.cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p.Interface(), 0)
		return nil, err
	})
	if o.err == nil {
		t.Fatalf("length-prefixed reader %x (%s of %x): %v\n%v", bz, how, good, o, d)
	}
}

// checkStable: what an accepted input decodes to is encoded canonically, and
// that is stable.
func checkStable(t *rapid.T) {
	d, good, bz, how := badInput(t)
	v1, o := unmarshalBin(d.w.cdc, bz, d.rt)
	if o.panik != nil {
		t.Fatalf("decoding %x (%s of %x) panicked: %v\n%v", bz, how, good, o.panik, d)
	}
	again, o2 := unmarshalBin(d.w.fresh(nil), bz, d.rt)
	if o.failed() != o2.failed() {
		t.Fatalf("decoding %x twice: %v, %v\n%v", bz, o, o2, d)
	}
	if o.failed() {
		ev.count(false, nil, nil, "rejected")
		return
	}
	if s := diff(v1, again); s != "" {
		t.Fatalf("decoding %x twice gives different values at %s\n%v", bz, s, d)
	}
	cv := v1
	if cv.Kind() == reflect.Interface {
		cv = cv.Elem()
	}
	dv, isNil := deref(cv)
	if isNil || !dv.IsValid() {
		ev.count(false, nil, nil, "nil")
		return
	}
	e := marshalBin(d.w.cdc, cv.Interface())
	if e.failed() {
		t.Fatalf("%x was accepted but its value can't be encoded: %v\n %s\n%v", bz, e, dump(v1), d)
	}
	canon := "canonical"
	if !bytes.Equal(e.bz, bz) {
		canon = "not-canonical"
	}
	ev.count(!bytes.Equal(good, bz) && len(bz) >= 2, caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %x into %v, re-encoded %x", how, bz, d.rt, e.bz) }, canon, "how:"+how)
	ref, err := d.w.encTop(cv)
	if err != nil || !bytes.Equal(ref, e.bz) {
		t.Fatalf("%x re-encodes as\n %x, the reference gives\n %x (%v)\n value %s\n%v", bz, e.bz, ref, err, dump(v1), d)
	}
	rt := d.rt
	if rt.Kind() == reflect.Interface {
		rt = dv.Type()
	}
	v2, o3 := unmarshalBin(d.w.cdc, e.bz, rt)
	if o3.failed() {
		t.Fatalf("%x re-encodes as %x which is rejected: %v\n%v", bz, e.bz, o3, d)
	}
	if s := diff(d.w.normTop(dv, rt), v2); s != "" {
		t.Fatalf("%x re-encodes as %x, which decodes differently at %s\n %s\n %s\n%v", bz, e.bz, s, dump(v1), dump(v2), d)
	}
	e2 := marshalBin(d.w.cdc, v2.Interface())
	if e2.failed() || !bytes.Equal(e2.bz, e.bz) {
		t.Fatalf("%x re-encodes as %x and then as %v\n%v", bz, e.bz, e2, d)
	}
}

func TestC09(t *testing.T) {
	run(t, "corrupt", 30, func(t *rapid.T) { checkBad(t, false) })
	run(t, "framed", 8, checkFramed)
	run(t, "names", 6, func(t *rapid.T) { checkNamesIn(t, true, false) })
}

func TestC10(t *testing.T) {
	run(t, "meaning", 20, func(t *rapid.T) { checkBad(t, true) })
	run(t, "stable", 20, checkStable)
}
