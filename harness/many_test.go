package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// Codecs with many types. The types are byte arrays of many lengths, and
// structs and lists of those.

func manyType(k int) reflect.Type {
	a := reflect.ArrayOf(1+k/3, tof(byte(0)))
	switch k % 3 {
	case 0:
		return a
	case 1:
		return reflect.StructOf([]reflect.StructField{{Name: "N", Type: tof(int8(0))}, {Name: "A", Type: a}})
	}
	return reflect.SliceOf(a)
}

type manyWrap struct {
	A int
	X Any
	B []Any
}

// checkMany: each of many registered types keeps its identity, however many
// are registered or only used before and after it.
func checkMany(t *rapid.T) {
	w := emptyWorld()
	n := pickFrom(t, []int{20, 33, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513, 700}, "types")
	if chance(t, 4, "dict") {
		if n = 1 + pickFrom(t, dict.lens, "dicttypes"); n > 700 {
			n = 700
		}
	}
	base := pick(t, 1000, "base")
	at := pick(t, n, "iface")
	always := chance(t, 3, "always")
	used := pick(t, 3, "used") // other types between them
	seen := map[[4]byte]bool{}
	var cs []*Conc
	for i := 0; i < n; i++ {
		if i == at {
			w.add(regStep{i: &Iface{T: anyType, Always: always}})
		}
		c := newConc(manyType((i*7+base)%n), i%5 == 2, fmt.Sprintf("many/%d/%d", base, i))
		if w.byT[c.T] != nil || seen[c.Prefix] {
			continue
		}
		seen[c.Prefix] = true
		w.add(regStep{c: c})
		cs = append(cs, c)
		if used == 1 && i%3 == 0 || used == 2 {
			v := reflect.New(reflect.ArrayOf(i, tof(int16(0))))
			if o := marshalBin(w.cdc, v.Elem().Interface()); o.failed() {
				t.Fatalf("%v: %v", v.Type(), o)
			}
		}
	}
	if chance(t, 3, "seal") {
		w.cdc.Seal()
	}
	ev.count(true, []byte(fmt.Sprint(n, base, at, always, used)), func() string { return fmt.Sprintf("%d types, interface at %d, always %v", n, at, always) }, fmt.Sprintf("many:2^%d", bitLen(n)))
	// All of them in one message, and each by itself.
	fill := func(rv reflect.Value, k int) {
		switch rv.Kind() {
		case reflect.Array:
			rv.Index(k % rv.Len()).SetUint(uint64(k%255 + 1))
		case reflect.Struct:
			rv.Field(0).SetInt(int64(k % 120))
			rv.Field(1).Index(0).SetUint(uint64(k%255 + 1))
		default:
			rv.Set(reflect.MakeSlice(rv.Type(), k%3+1, k%3+1))
			rv.Index(k % 3).Index(0).SetUint(uint64(k%255 + 1))
		}
	}
	var all manyWrap
	for i, c := range cs {
		p := reflect.New(c.T)
		fill(p.Elem(), i)
		v := p.Elem().Interface()
		if c.Ptr {
			v = p.Interface()
		}
		all.B = append(all.B, v)
	}
	check := func(x manyWrap, what string) {
		rv := reflect.ValueOf(&x).Elem()
		want, err := w.encTop(rv)
		must(err)
		o := marshalBin(w.cdc, x)
		if o.failed() || !bytes.Equal(o.bz, want) {
			t.Fatalf("%s of %d types: %v %x, want %x", what, len(cs), o, clip(o.bz), clip(want))
		}
		got, do := unmarshalBin(w.cdc, want, rv.Type())
		if do.failed() || !reflect.DeepEqual(got.Interface(), x) {
			t.Fatalf("%s of %d types: decoded %v %s, want %s", what, len(cs), do, dump(got), dump(rv))
		}
		j := marshalJSON(w.cdc, x)
		node, err := w.encTopJSON(rv)
		must(err)
		if p, ok := parseJSON(j.bz); j.failed() || !ok || !node.sameAs(p) {
			t.Fatalf("%s of %d types: JSON %v %s, want %s", what, len(cs), j, clip(j.bz), clip(node.bytes()))
		}
		got, do = unmarshalJSON(w.cdc, j.bz, rv.Type())
		if do.failed() || !reflect.DeepEqual(got.Interface(), x) {
			t.Fatalf("%s of %d types: decoded from JSON %v", what, len(cs), do)
		}
	}
	check(all, "a message")
	for i, n := 0, 1+pick(t, 4, "singles"); i < n; i++ {
		k := pick(t, len(cs), "single")
		check(manyWrap{A: k, X: all.B[k]}, fmt.Sprintf("type %d", k))
	}
	var b strings.Builder
	if err := w.cdc.PrintTypes(&b); err != nil {
		t.Fatalf("PrintTypes: %v", err)
	}
	rows := strings.Split(strings.TrimSuffix(b.String(), "\n"), "\n")
	if len(rows) != len(cs)+2 {
		t.Fatalf("PrintTypes has %d rows for %d types", len(rows)-2, len(cs))
	}
	for i, c := range cs {
		if !strings.Contains(rows[i+2], c.Name+" ") || !strings.Contains(rows[i+2], fmt.Sprintf("0x%X", c.Prefix)) {
			t.Fatalf("row %d: %q, want %s 0x%X", i, rows[i+2], c.Name, c.Prefix)
		}
	}
	// What is taken stays taken.
	k := pick(t, len(cs), "taken")
	if !chance(t, 2, "again") {
		return
	}
	for _, c := range []*Conc{newConc(cs[k].T, false, "many/new"), newConc(tof(CStruct{}), false, cs[k].Name)} {
		if o := try(func() ([]byte, error) { (regStep{c: c}).apply(w.cdc); return nil, nil }); o.panik == nil {
			t.Fatalf("%v as %q was registered again among %d types", c.T, c.Name, len(cs))
		}
	}
	check(manyWrap{X: all.B[k]}, "after rejected registrations, type")
}
