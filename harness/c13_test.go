package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func nontrivJSON(bz []byte) bool { return len(bz) > 4 }

func jsonShape(bz []byte) []string {
	var cs []string
	for _, p := range []struct{ s, c string }{{`{"type":`, "registered"}, {"null", "null"}, {`T`, "time?"}, {"[", "list"}, {"\\u", "escape"}} {
		if bytes.Contains(bz, []byte(p.s)) {
			cs = append(cs, "has:"+p.c)
		}
	}
	return cs
}

func checkJSONRoundTrip(t *rapid.T, d drawn) {
	o := marshalJSON(d.w.cdc, d.rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	if !json.Valid(o.bz) {
		t.Fatalf("invalid JSON %s\n%v", o.bz, d)
	}
	ev.count(nontrivJSON(o.bz), caseFP(d.rt, o.bz), func() string { return d.String() + " = " + string(o.bz) }, jsonShape(o.bz)...)
	if topNil(d.rv) && d.w.byT[derefT(d.rt)] != nil {
		return
	}
	want := d.w.normTopJSON(d.rv, d.rt)
	cdc := d.w.cdc
	if pick(t, 2, "fresh") == 1 {
		cdc = d.w.fresh(nil)
	}
	bz := o.bz
	switch pick(t, 4, "form") {
	case 1:
		var b bytes.Buffer
		must(json.Indent(&b, bz, "", " "))
		bz = b.Bytes()
	case 2:
		io := try(func() ([]byte, error) { return cdc.MarshalJSONIndent(d.rv.Interface(), ">", "\t") })
		if io.failed() {
			t.Fatalf("MarshalJSONIndent failed: %v\n%v", io, d)
		}
		bz = bytes.ReplaceAll(io.bz, []byte("\n>"), []byte("\n"))
	}
	got, do := unmarshalJSON(cdc, bz, d.rt)
	if do.failed() {
		t.Fatalf("decoding %s failed: %v\n%v", bz, do, d)
	}
	if s := diff(want, got); s != "" {
		t.Fatalf("round trip changed the value at %s\n json %s\n got %s\n want %s\n%v", s, clip(o.bz), dump(got), dump(want), d)
	}
}

// scalarsCase: every kind over its whole range, in a struct with all of them.
type allScalars struct {
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	B    bool
	S    string
	F32  float32 `amino:"unsafe"`
	F64  float64 `amino:"unsafe"`
	By   []byte
	A    [3]byte
	PI   *int64
	PU   *uint64
	MI   map[string]int64
	MU   map[string]uint64
	MN   map[string]*int8
	LI   []int64
	LU   []uint
	MF   map[string]float64 `amino:"unsafe"`
	LF   []float32          `amino:"unsafe"`
	Oi64 int64              `json:",omitempty"`
}

func TestC13(t *testing.T) {
	run(t, "sizes", 0.015, checkSizedJSON)
	run(t, "shapes", 0.06, shapes(checkSizedJSON))
	run(t, "values", 15, func(t *rapid.T) { checkJSONRoundTrip(t, drawCase(t, true)) })
	run(t, "scalars", 3, func(t *rapid.T) {
		rt := tof(allScalars{})
		checkJSONRoundTrip(t, drawn{emptyWorld(), rt, drawValue(t, rt, newV(emptyWorld(), true))})
	})
	run(t, "integers", 3, func(t *rapid.T) {
		k := pickFrom(t, scalarKinds, "k")
		rt := plainScalars[k]
		checkJSONRoundTrip(t, drawn{emptyWorld(), rt, drawValue(t, rt, newV(emptyWorld(), true))})
	})
}

func checkJSONFormat(t *rapid.T, d drawn) {
	want, err := d.w.encTopJSON(d.rv)
	if err != nil {
		t.Fatalf("the generator made an unsupported value\n%v", d)
	}
	arg := d.rv.Interface()
	if pick(t, 2, "ptr") == 1 {
		arg = d.rv.Addr().Interface()
	}
	o := marshalJSON(d.w.cdc, arg)
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, d)
	}
	ev.count(nontrivJSON(o.bz), caseFP(d.rt, o.bz), func() string { return d.String() + " = " + string(o.bz) }, jsonShape(o.bz)...)
	got, ok := parseJSON(o.bz)
	if !ok || !bytes.Equal(got.bytes(), o.bz) || !want.sameAs(got) {
		t.Fatalf("document differs from the reference\n got  %s\n want %s\n%v", o.bz, want.bytes(), d)
	}
}

func TestC14(t *testing.T) {
	run(t, "sizes", 0.01, checkSizedJSONFormat)
	run(t, "shapes", 0.1, shapes(checkSizedJSONFormat))
	run(t, "values", 20, func(t *rapid.T) { checkJSONFormat(t, drawCase(t, true)) })
	run(t, "scalars", 3, func(t *rapid.T) {
		rt := tof(allScalars{})
		checkJSONFormat(t, drawn{emptyWorld(), rt, drawValue(t, rt, newV(emptyWorld(), true))})
	})
}

// ---------------------------------------------------------------- corrupted documents

var oddScalars = []string{"null", "true", "false", "0", "-0", "1", "-1", "1.0", "1.5", "1e2", "1e400", "127", "128", "-128", "-129", "255", "256", "32767", "32768",
	"65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
	`"0"`, `"-0"`, `"1"`, `"-1"`, `"01"`, `"+1"`, `" 1"`, `"1 "`, `"1.0"`, `"1e2"`, `"0x10"`, `"1_0"`, `"9223372036854775807"`, `"9223372036854775808"`, `"-9223372036854775808"`,
	`"-9223372036854775809"`, `"18446744073709551615"`, `"18446744073709551616"`, `"\u0031"`, `"--1"`, `"-"`, `"1-"`, `"٣"`, `""`, `"a"`, `"AA=="`, `"AAA="`, `"AA"`, `"A"`, `"AAAA"`, `"AAAAA"`, `"A-_A"`, `"AA=A"`, `"AAECAw=="`, `"AAECAwQ="`,
	`"2020-02-29T12:34:56Z"`, `"2021-02-29T12:34:56Z"`, `"2020-01-01T00:00:00.123456789Z"`, `"2020-01-01T00:00:00.1234567891Z"`, `"2020-01-01T00:00:00+00:00"`,
	`"2020-01-01T00:00:00-07:00"`, `"2020-01-01"`, `"2020-01-01T00:00:00"`, `"2020-01-01t00:00:00z"`, `"2020-01-01 00:00:00Z"`, `"2020-13-01T00:00:00Z"`, `"2020-01-01T24:00:00Z"`, `"2020-01-01T00:00:60Z"`,
	`"0000-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999999Z"`, `"10000-01-01T00:00:00Z"`, `"-001-01-01T00:00:00Z"`, `"2020-1-1T0:0:0Z"`, `"2020-01-01T00:00:00,5Z"`, `"2020-01-01T00:00:00.Z"`, `"Z"`, `"\"Z"`,
	`"\ud800"`, `"\u0000"`, "[]", "{}", "[null]", "[0]", `["0"]`, `[[]]`, `[{}]`, `{"type":"x","value":1}`, `{"a":1}`, `{"":null}`}

func corruptJSON(t *rapid.T, w *World, bz []byte) ([]byte, string) {
	n, ok := parseJSON(bz)
	if ok && pick(t, 4, "structured") > 0 {
		h := corruptNode(t, w, n)
		return n.bytes(), h
	}
	out := append([]byte{}, bz...)
	l := len(out)
	if l == 0 {
		return []byte("x"), "raw"
	}
	switch pick(t, 8, "rawop") {
	case 0:
		return out[:pick(t, l, "cut")], "truncate"
	case 1:
		return append(out, pickFrom(t, []string{"x", "}", "]", ",", "1", "null", `"`, " {}", "//"}, "trail")...), "trailing"
	case 2:
		k := pick(t, l, "at")
		return append(out[:k:k], out[k+1:]...), "delete-byte"
	case 3:
		k := pick(t, l+1, "at")
		return []byte(string(out[:k]) + pickFrom(t, []string{`"`, ",", ":", "{", "}", "[", "]", "0", "-", "\\", "\x00", "\xff", " ", "null", "e", "."}, "ins") + string(out[k:])), "insert-byte"
	case 4:
		out[pick(t, l, "at")] = gByte.Draw(t, "b")
		return out, "set-byte"
	case 5:
		out[pick(t, l, "at")] ^= 1 << uint(pick(t, 8, "bit"))
		return out, "flip"
	case 6:
		a, b := pick(t, l, "a"), pick(t, l, "b")
		return append(append([]byte{}, out[:a]...), out[b:]...), "splice"
	default:
		return []byte(pickFrom(t, oddScalars, "odd")), "scalar-top"
	}
}

func corruptNode(t *rapid.T, w *World, n *jnode) string {
	if len(n.kids) > 0 && pick(t, 4, "down") > 0 {
		return corruptNode(t, w, n.kids[pick(t, len(n.kids), "kid")])
	}
	odd := func() *jnode {
		m, ok := parseJSON([]byte(pickFrom(t, oddScalars, "odd")))
		if !ok {
			panic("odd")
		}
		return m
	}
	switch pick(t, 9, "op") {
	case 0: // drop a kid
		if len(n.kids) > 0 {
			k := pick(t, len(n.kids), "k")
			n.kids = append(n.kids[:k:k], n.kids[k+1:]...)
			if n.kind == 'o' {
				n.keys = append(n.keys[:k:k], n.keys[k+1:]...)
			}
			return "drop"
		}
	case 1: // add a kid
		if n.kind != 's' {
			n.kids = append(n.kids, odd())
			if n.kind == 'o' {
				n.keys = append(n.keys, pickFrom(t, []string{`"F0"`, `"F1"`, `"x0"`, `"type"`, `"value"`, `"zz"`, `"f0"`, `"Type"`}, "key"))
			}
			return "add"
		}
	case 2: // repeat a kid
		if n.kind != 's' && len(n.kids) > 0 {
			k := pick(t, len(n.kids), "k")
			n.kids = append(n.kids, n.kids[k])
			if n.kind == 'o' {
				n.keys = append(n.keys, n.keys[k])
			}
			return "repeat"
		}
	case 3: // rename a key or a type
		if n.kind == 'o' && len(n.kids) > 0 {
			k := pick(t, len(n.keys), "k")
			if n.keys[k] == `"type"` && pick(t, 3, "rn") > 0 {
				names := []string{"nope", "", "N/1"}
				for _, c := range w.concs {
					names = append(names, c.Name)
				}
				n.kids[k] = scalar(stdJSON(pickFrom(t, names, "name")))
				return "retype"
			}
			n.keys[k] = pickFrom(t, []string{`"zz"`, `"F0"`, `"F1"`, strings.ToLower(n.keys[k])}, "key")
			return "rename"
		}
	case 4: // quote or unquote
		if n.kind == 's' {
			if n.raw[0] == '"' {
				if s := n.raw[1 : len(n.raw)-1]; json.Valid([]byte(s)) {
					n.raw = s
					m, _ := parseJSON([]byte(s))
					*n = *m
					return "unquote"
				}
			} else {
				n.raw = `"` + n.raw + `"`
				return "quote"
			}
		}
	case 5: // change a character of a scalar
		if n.kind == 's' && len(n.raw) > 2 && n.raw[0] == '"' {
			k := 1 + pick(t, len(n.raw)-2, "at")
			c := pickFrom(t, []string{"0", "9", "-", "+", ".", "Z", "z", "=", "A", " ", "e", "\\n", "T", ":"}, "c")
			if s := n.raw[:k] + c + n.raw[k+pick(t, 2, "ins"):]; json.Valid([]byte(s)) {
				n.raw = s
				return "change-string"
			}
		}
	}
	*n = *odd()
	return "replace"
}

func badJSON(t *rapid.T) (d drawn, good, bz []byte, how string) {
	d = drawCase(t, true)
	if chance(t, 5, "ifaceTop") && len(d.w.concs) > 0 {
		it := pickFrom(t, ifaceTypes, "it")
		if us := d.w.usable(it); len(us) > 0 {
			d.rt = it
			d.rv = drawValue(t, pickFrom(t, us, "c").T, newV(d.w, true))
		}
	}
	n, err := d.w.encTopJSON(d.rv)
	if err != nil {
		t.Fatalf("reference: %v", err)
	}
	good = n.bytes()
	bz, how = corruptJSON(t, d.w, good)
	if pick(t, 8, "again") == 7 {
		bz, _ = corruptJSON(t, d.w, bz)
	}
	return
}

func checkBadJSON(t *rapid.T, accept bool) {
	d, good, bz, how := badJSON(t)
	if len(bz) == 0 {
		return
	}
	orig := append([]byte{}, bz...)
	want, rerr := d.w.decTopJSON(bz, d.rt)
	got, o := unmarshalJSON(d.w.cdc, bz, d.rt)
	if o.panik != nil {
		t.Fatalf("decoding %s (%s of %s) panicked: %v\n%v", orig, how, good, o.panik, d)
	}
	if !bytes.Equal(orig, bz) {
		t.Fatalf("decoding changed its input\n%v", d)
	}
	if rerr == errUnsure {
		ev.count(false, nil, nil, "unspecified")
		return
	}
	if rerr != nil {
		ev.count(true, caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %s into %v: %v", how, bz, d.rt, rerr) }, "rejected", "how:"+how)
		if o.err == nil {
			t.Fatalf("malformed document accepted\n input %s (%s of %s)\n reference: %v\n got %s\n%v", orig, how, good, rerr, dump(got), d)
		}
		return
	}
	ev.count(!bytes.Equal(good, bz), caseFP(d.rt, bz), func() string { return fmt.Sprintf("%s: %s into %v is valid", how, bz, d.rt) }, "valid", "how:"+how)
	if !accept {
		return
	}
	if o.err != nil {
		t.Fatalf("valid document rejected\n input %s (%s of %s)\n error %v\n reference value %s\n%v", orig, how, good, o.err, dump(want), d)
	}
	if s := diff(want, got); s != "" {
		t.Fatalf("document decoded to something else at %s\n input %s (%s of %s)\n got %s\n want %s\n%v", s, orig, how, good, dump(got), dump(want), d)
	}
}

// TestC15: corrupted documents, and odd scalars into every kind.
func TestC15(t *testing.T) {
	run(t, "corrupt", 25, func(t *rapid.T) { checkBadJSON(t, true) })
	run(t, "names", 6, func(t *rapid.T) { checkNamesIn(t, false, true) })
	once(t, "scalars", func(t *testing.T) {
		if shard != 0 {
			return
		}
		w := emptyWorld()
		types := []reflect.Type{timeType, tof([]byte{}), tof([4]byte{}), tof(RInt(0)), tof(RStr("")), tof(RBytes{}), tof(RStruct{}), tof([]int64{}), tof([1]int8{}), tof(map[string]int{}),
			tof(&Inner{}), tof(struct {
				F float64 `amino:"unsafe"`
			}{}), tof([]float32{})}
		for k := reflect.Bool; k <= reflect.String; k++ {
			if plainScalars[k] != nil && k != reflect.Float32 && k != reflect.Float64 {
				types = append(types, plainScalars[k], namedScalars[k], reflect.PtrTo(plainScalars[k]), reflect.SliceOf(plainScalars[k]))
			}
		}
		for _, rt := range types {
			for _, s := range oddScalars {
				for _, doc := range []string{s, "[" + s + "]", "[" + s + "," + s + "]", `{"F":` + s + `}`, `{"A":` + s + `}`, `{"a":` + s + `}`} {
					want, rerr := w.decTopJSON([]byte(doc), rt)
					got, o := unmarshalJSON(w.cdc, []byte(doc), rt)
					if o.panik != nil {
						t.Fatalf("decoding %s into %v panicked: %v", doc, rt, o.panik)
					}
					if rerr == errUnsure {
						continue
					}
					ev.count(true, []byte(rt.String()+doc), func() string { return fmt.Sprintf("%s into %v: %v", doc, rt, rerr) }, map[bool]string{true: "valid", false: "rejected"}[rerr == nil])
					if (rerr != nil) != (o.err != nil) {
						t.Fatalf("decoding %s into %v: got error %v, reference %v", doc, rt, o.err, rerr)
					}
					if rerr == nil {
						if s := diff(want, got); s != "" {
							t.Fatalf("decoding %s into %v: %s\n got %s\n want %s", doc, rt, s, dump(got), dump(want))
						}
					}
				}
			}
		}
	})
}
