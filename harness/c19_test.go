package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// prim is one pair of exported functions. Values travel as a bit pattern, or
// as a string for byte slices and strings.
type prim struct {
	name string
	bits int // width of the value; 0: bytes
	enc  func(w io.Writer, u uint64, s string) error
	dec  func(bz []byte) (u uint64, s string, n int, err error)
	ref  func(u uint64, s string) []byte
	kind byte // 'u' uvarint, 'z' zigzag, 'f' fixed, 'b' bool, 's' bytes
}

func le(n int) func(uint64, string) []byte {
	return func(u uint64, _ string) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(u >> (8 * i))
		}
		return b
	}
}

func uv(u uint64, _ string) []byte { return uvarint(u) }
func frameStr(_ uint64, s string) []byte {
	return append(uvarint(uint64(len(s))), s...)
}

var errWrite19 = errors.New("write error 1bd6")

var prims = []prim{
	{"Int8", 8, func(w io.Writer, u uint64, s string) error { return amino.EncodeInt8(w, int8(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeInt8(b)
			return uint64(uint8(v)), "", n, err
		}, func(u uint64, _ string) []byte { return zigzag(int64(int8(u))) }, 'z'},
	{"Int16", 16, func(w io.Writer, u uint64, s string) error { return amino.EncodeInt16(w, int16(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeInt16(b)
			return uint64(uint16(v)), "", n, err
		}, func(u uint64, _ string) []byte { return zigzag(int64(int16(u))) }, 'z'},
	{"Int32", 32, func(w io.Writer, u uint64, s string) error { return amino.EncodeInt32(w, int32(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeInt32(b)
			return uint64(uint32(v)), "", n, err
		}, le(4), 'f'},
	{"Int64", 64, func(w io.Writer, u uint64, s string) error { return amino.EncodeInt64(w, int64(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeInt64(b)
			return uint64(v), "", n, err
		}, le(8), 'f'},
	{"Varint", 64, func(w io.Writer, u uint64, s string) error { return amino.EncodeVarint(w, int64(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeVarint(b)
			return uint64(v), "", n, err
		}, func(u uint64, _ string) []byte { return zigzag(int64(u)) }, 'z'},
	{"Byte", 8, func(w io.Writer, u uint64, s string) error { return amino.EncodeByte(w, byte(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeByte(b)
			return uint64(v), "", n, err
		}, uv, 'u'},
	{"Uint8", 8, func(w io.Writer, u uint64, s string) error { return amino.EncodeUint8(w, uint8(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeUint8(b)
			return uint64(v), "", n, err
		}, uv, 'u'},
	{"Uint16", 16, func(w io.Writer, u uint64, s string) error { return amino.EncodeUint16(w, uint16(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeUint16(b)
			return uint64(v), "", n, err
		}, uv, 'u'},
	{"Uint32", 32, func(w io.Writer, u uint64, s string) error { return amino.EncodeUint32(w, uint32(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeUint32(b)
			return uint64(v), "", n, err
		}, le(4), 'f'},
	{"Uint64", 64, func(w io.Writer, u uint64, s string) error { return amino.EncodeUint64(w, u) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeUint64(b)
			return v, "", n, err
		}, le(8), 'f'},
	{"Uvarint", 64, func(w io.Writer, u uint64, s string) error { return amino.EncodeUvarint(w, u) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeUvarint(b)
			return v, "", n, err
		}, uv, 'u'},
	{"Bool", 1, func(w io.Writer, u uint64, s string) error { return amino.EncodeBool(w, u == 1) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeBool(b)
			if v {
				u = 1
			}
			return u, "", n, err
		}, uv, 'b'},
	{"Float32", 32, func(w io.Writer, u uint64, s string) error {
		return amino.EncodeFloat32(w, math.Float32frombits(uint32(u)))
	},
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeFloat32(b)
			return uint64(math.Float32bits(v)), "", n, err
		}, le(4), 'f'},
	{"Float64", 64, func(w io.Writer, u uint64, s string) error { return amino.EncodeFloat64(w, math.Float64frombits(u)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeFloat64(b)
			return math.Float64bits(v), "", n, err
		}, le(8), 'f'},
	{"ByteSlice", 0, func(w io.Writer, u uint64, s string) error { return amino.EncodeByteSlice(w, []byte(s)) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeByteSlice(b)
			return 0, string(v), n, err
		}, frameStr, 's'},
	{"String", 0, func(w io.Writer, u uint64, s string) error { return amino.EncodeString(w, s) },
		func(b []byte) (u uint64, s string, n int, err error) {
			v, n, err := amino.DecodeString(b)
			return 0, v, n, err
		}, frameStr, 's'},
}

// sizes checks the size functions for a value of p.
func (p prim) sizes(u uint64, s string, want []byte) string {
	n := -1
	switch p.name {
	case "Uvarint", "Uint8", "Byte", "Uint16":
		n = amino.UvarintSize(u)
	case "Varint":
		n = amino.VarintSize(int64(u))
	case "Int8":
		n = amino.VarintSize(int64(int8(u)))
	case "Int16":
		n = amino.VarintSize(int64(int16(u)))
	case "ByteSlice", "String":
		n = amino.ByteSliceSize([]byte(s))
	default:
		return ""
	}
	if n != len(want) {
		return fmt.Sprintf("size function says %d, written %d", n, len(want))
	}
	return ""
}

// roundTrip checks one value: bytes, size, decoding with bytes behind, and all
// proper prefixes; writer errors at byte k.
func (p prim) roundTrip(u uint64, s string, tail []byte, k int) string {
	want := p.ref(u, s)
	var b bytes.Buffer
	if o := try(func() ([]byte, error) { return nil, p.enc(&b, u, s) }); o.failed() {
		return fmt.Sprintf("Encode%s(%#x, %q): %v", p.name, u, clipStr(s, 40), o)
	}
	if !bytes.Equal(b.Bytes(), want) {
		return fmt.Sprintf("Encode%s(%#x, %q) wrote %x, documented %x", p.name, u, clipStr(s, 40), clip(b.Bytes()), clip(want))
	}
	if e := p.sizes(u, s, want); e != "" {
		return fmt.Sprintf("%s(%#x, %q): %s", p.name, u, clipStr(s, 40), e)
	}
	in := append(append([]byte{}, want...), tail...)
	keep := append([]byte{}, in...)
	gu, gs, n, o := p.decode(in)
	if o.failed() || gu != u || gs != s || n != len(want) {
		return fmt.Sprintf("Decode%s(%x) after encoding %#x %q in %d bytes: %#x %q n=%d %v", p.name, clip(in), u, clipStr(s, 40), len(want), gu, clipStr(gs, 40), n, o)
	}
	if !bytes.Equal(in, keep) {
		return fmt.Sprintf("Decode%s changed its input %x to %x", p.name, clip(keep), clip(in))
	}
	for l := 0; l < len(want); l++ {
		if l > 40 && l < len(want)-40 && l != k%len(want) {
			continue
		}
		// In half of the cases the rest of the encoding is there, beyond the
		// length of the slice.
		cut := want[:l]
		if k%2 == 0 {
			cut = append([]byte{}, cut...)
		}
		if gu, gs, n, o := p.decode(cut); !o.failed() || o.panik != nil {
			return fmt.Sprintf("Decode%s of %x, cut from %x: %#x %q n=%d %v", p.name, clip(want[:l]), clip(want), gu, clipStr(gs, 40), n, o)
		}
	}
	for _, left := range []int{0, k % (len(want) + 1), len(want) - 1} {
		lw := &limWriter{left: left, err: errWrite19, heals: k%2 == 1}
		o := try(func() ([]byte, error) { return nil, p.enc(lw, u, s) })
		if left == len(want) {
			if o.failed() {
				return fmt.Sprintf("Encode%s(%#x, %q) to a writer with room for %d: %v", p.name, u, clipStr(s, 40), left, o)
			}
		} else if o.panik != nil || !errors.Is(o.err, errWrite19) {
			return fmt.Sprintf("Encode%s(%#x, %q) to a writer that fails after %d of %d bytes: %v", p.name, u, clipStr(s, 40), left, len(want), o)
		} else if !bytes.Equal(lw.got, want[:left]) {
			return fmt.Sprintf("Encode%s(%#x, %q) to a writer that fails after %d of %d bytes wrote %x", p.name, u, clipStr(s, 40), left, len(want), clip(lw.got))
		}
	}
	return ""
}

func (p prim) decode(bz []byte) (u uint64, s string, n int, o outcome) {
	o = try(func() (_ []byte, err error) { u, s, n, err = p.dec(bz); return })
	return
}

// refDecode is the documented meaning of arbitrary input.
func (p prim) refDecode(bz []byte) (u uint64, s string, n int, ok bool) {
	switch p.kind {
	case 'f':
		n = p.bits / 8
		if len(bz) < n {
			return 0, "", 0, false
		}
		for i := n - 1; i >= 0; i-- {
			u = u<<8 | uint64(bz[i])
		}
		return u, "", n, true
	case 'b':
		if len(bz) < 1 || bz[0] > 1 {
			return 0, "", 0, false
		}
		return uint64(bz[0]), "", 1, true
	}
	u, n = binary.Uvarint(bz)
	if n <= 0 {
		return 0, "", 0, false
	}
	switch p.kind {
	case 'u':
		return u, "", n, p.bits == 64 || u < 1<<p.bits
	case 'z':
		i := int64(u>>1) ^ -int64(u&1)
		if p.bits < 64 && (i < -1<<(p.bits-1) || i >= 1<<(p.bits-1)) {
			return 0, "", 0, false
		}
		u = uint64(i)
		if p.bits < 64 {
			u &= 1<<p.bits - 1
		}
		return u, "", n, true
	}
	if u > uint64(len(bz)-n) {
		return 0, "", 0, false
	}
	return 0, string(bz[n : n+int(u)]), n + int(u), true
}

// arbitrary checks the decoder on any bytes.
func (p prim) arbitrary(bz []byte) string {
	u, s, n, ok := p.refDecode(bz)
	gu, gs, gn, o := p.decode(bz)
	if o.panik != nil || ok == o.failed() || ok && (gu != u || gs != s || gn != n) {
		return fmt.Sprintf("Decode%s(%x): %#x %q n=%d %v; want %#x %q n=%d ok=%v", p.name, clip(bz), gu, clipStr(gs, 40), gn, o, u, clipStr(s, 40), n, ok)
	}
	return ""
}

func drawPrim(t *rapid.T) (p prim, u uint64, s string) {
	p = pickFrom(t, prims, "prim")
	if p.bits > 0 {
		u = drawUint(t, 64)
		if p.kind == 'z' && pick(t, 2, "signed") == 1 {
			u = uint64(drawInt(t, 64))
		}
		if p.bits < 64 {
			u &= 1<<p.bits - 1
		}
		return
	}
	if chance(t, 10, "long") {
		s = string(drawBytes(t, pickFrom(t, []int{126, 127, 128, 129, 255, 256, 4096, 16383, 16384, 16385, 65536, 1 << 21, 1<<21 - 1}, "len")))
	} else if pick(t, 2, "txt") == 0 {
		s = drawString(t, false)
	} else {
		s = string(drawBytes(t, drawLen(t)))
	}
	return
}

func checkPrimRT(t *rapid.T) {
	p, u, s := drawPrim(t)
	var tail []byte
	switch pick(t, 4, "tail") {
	case 0:
		tail = drawBytes(t, 1+pick(t, 12, "tl"))
	case 1:
		tail = bytes.Repeat([]byte{pickFrom(t, []byte{0x80, 0xff, 0, 1, 0x7f}, "tb")}, 1+pick(t, 12, "tl"))
	case 2:
		tail = p.ref(u, s)
	}
	k := pick(t, 1000, "k")
	fp := fmt.Sprintf("%s %x %s", p.name, u, s)
	ev.count(u > 127 || len(s) > 0, []byte(fp), func() string { return clipStr(fp, 100) }, p.name)
	if e := p.roundTrip(u, s, tail, k); e != "" {
		t.Fatal(e)
	}
}

func checkPrimAny(t *rapid.T) {
	p, u, s := drawPrim(t)
	bz := p.ref(u, s)
	switch pick(t, 6, "how") {
	case 0:
		bz = drawBytes(t, pick(t, 14, "n"))
	case 1: // a varint of any width, perhaps not minimal or too long
		bz = uvarint(drawUint(t, 64))
		for i, n := 0, pick(t, 5, "pad"); i < n; i++ {
			bz[len(bz)-1] |= 0x80
			bz = append(bz, pickFrom(t, []byte{0, 0, 0, 1, 2, 0x7f}, "padb"))
		}
		bz = append(bz, drawBytes(t, pick(t, 9, "rest"))...)
	case 2: // the neighbourhood of the target's range
		d := uint64(int64(pick(t, 7, "d") - 3))
		b := uint64(1) << pickFrom(t, []int{7, 8, 15, 16, 31, 32, 62, 63, 0}, "edge")
		if pick(t, 2, "zz") == 0 {
			bz = zigzag(int64(b + d))
		} else {
			bz = uvarint(b + d)
		}
	case 3: // a length that lies
		bz = append(uvarint(drawUint(t, 64)), s...)
	case 4:
		bz, _ = corrupt1(t, bz)
	case 5:
		bz = append(bz, drawBytes(t, pick(t, 5, "rest"))...)
	}
	_, _, _, ok := p.refDecode(bz)
	ev.count(len(bz) >= 1, append([]byte(p.name), bz...), func() string { return fmt.Sprintf("%s %x accepted=%v", p.name, clip(bz), ok) }, fmt.Sprintf("accepted:%v", ok))
	if e := p.arbitrary(bz); e != "" {
		t.Fatal(e)
	}
}

// checkPrimAll enumerates the small kinds completely and the edges of the others.
func checkPrimAll(t *testing.T) {
	fail := func(e string) {
		if e != "" {
			t.Fatal("VERIF-VIOLATION " + e)
		}
	}
	n := 0
	for _, p := range prims {
		switch {
		case p.bits > 0 && p.bits <= 16:
			for u := uint64(0); u < 1<<p.bits; u++ {
				fail(p.roundTrip(u, "", []byte{0xff}, int(u)))
				n++
			}
		case p.bits > 16:
			for k := 0; k < p.bits; k++ {
				for d := -3; d <= 3; d++ {
					u := uint64(1)<<k + uint64(int64(d))
					for _, x := range []uint64{u, ^u, -u} {
						if p.bits < 64 {
							x &= 1<<p.bits - 1
						}
						fail(p.roundTrip(x, "", []byte{0x80}, k))
						n++
					}
				}
			}
		default:
			for l := 0; l < 600; l++ {
				fail(p.roundTrip(0, strings.Repeat("é", l/2)+strings.Repeat("x", l%2), []byte{1}, l))
				n++
			}
		}
		tick()
		// Every input of up to two bytes, and every varint near every power of two.
		fail(p.arbitrary(nil))
		fail(p.arbitrary([]byte{}))
		for a := 0; a < 256; a++ {
			fail(p.arbitrary([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				fail(p.arbitrary([]byte{byte(a), byte(b)}))
				n++
			}
		}
		for k := 0; k < 64; k++ {
			for d := -3; d <= 3; d++ {
				fail(p.arbitrary(uvarint(uint64(1)<<k + uint64(int64(d)))))
				fail(p.arbitrary(append(uvarint(uint64(1)<<k+uint64(int64(d))), "abc"...)))
				n += 2
			}
		}
		tick()
	}
	ev.count(true, []byte("enumeration"), func() string { return "" })
	ev.class("enumerated", int64(n))
}

// checkDisfixPrim: the exported prefix functions are inverses too.
func checkDisfixPrim(t *rapid.T) {
	var name string
	if pick(t, 2, "ascii") == 0 {
		name = drawString(t, true)
	} else {
		name = fmt.Sprintf("%s/%d", pickFrom(t, []string{"a", "com.tendermint/x", ""}, "ns"), drawUint(t, 32))
	}
	if name == "" {
		name = "x"
	}
	db, pb := disfix(name)
	ev.count(true, []byte(name), func() string { return name })
	var gdb amino.DisambBytes
	var gpb amino.PrefixBytes
	if o := try(func() ([]byte, error) { gdb, gpb = amino.NameToDisfix(name); return nil, nil }); o.failed() {
		t.Fatalf("NameToDisfix(%q): %v", name, o)
	}
	if gdb != amino.DisambBytes(db) || gpb != amino.PrefixBytes(pb) {
		t.Fatalf("NameToDisfix(%q) = %x %x, want %x %x", name, gdb, gpb, db, pb)
	}
	if !bytes.Equal(gdb.Bytes(), db[:]) || !bytes.Equal(gpb.Bytes(), pb[:]) || !gdb.EqualBytes(db[:]) || !gpb.EqualBytes(pb[:]) ||
		amino.NewPrefixBytes(pb[:]) != gpb {
		t.Fatalf("bytes of the prefix of %q", name)
	}
	// Any other bytes are not equal.
	i := pick(t, 4, "i")
	opb := pb
	opb[i] ^= 1 << pick(t, 8, "bit")
	odb := db
	odb[i%3] ^= 1 << pick(t, 8, "bit2")
	if gpb.EqualBytes(opb[:]) || gdb.EqualBytes(odb[:]) {
		t.Fatalf("prefix %x equals %x, or disambiguation %x equals %x", pb, opb, db, odb)
	}
	tail := drawBytes(t, pick(t, 6, "tail"))
	full := append([]byte{0}, append(append(append([]byte{}, db[:]...), pb[:]...), tail...)...)
	dfull := amino.DisfixBytes{}
	copy(dfull[:], full[1:8])
	if !bytes.Equal(dfull.Bytes(), full[1:8]) || !dfull.EqualBytes(full[1:8]) || dfull.EqualBytes(append(append([]byte{}, odb[:]...), pb[:]...)) ||
		dfull.EqualBytes(append(append([]byte{}, db[:]...), opb[:]...)) {
		t.Fatalf("disfix bytes %x", dfull)
	}
	type res struct {
		db    amino.DisambBytes
		hasDb bool
		pb    amino.PrefixBytes
		hasPb bool
		n     int
	}
	get := func(bz []byte) (r res, o outcome) {
		o = try(func() (_ []byte, err error) {
			r.db, r.hasDb, r.pb, r.hasPb, r.n, err = amino.DecodeDisambPrefixBytes(bz)
			return
		})
		return
	}
	if r, o := get(full); o.failed() || r != (res{gdb, true, gpb, true, 8}) {
		t.Fatalf("DecodeDisambPrefixBytes(%x) = %+v %v", full, r, o)
	}
	if r, o := get(full[4:]); o.failed() || r != (res{amino.DisambBytes{}, false, gpb, true, 4}) {
		t.Fatalf("DecodeDisambPrefixBytes(%x) = %+v %v", full[4:], r, o)
	}
	for l := 0; l < 8; l++ {
		if r, o := get(full[:l:l]); !o.failed() || o.panik != nil {
			t.Fatalf("DecodeDisambPrefixBytes(%x) = %+v %v", full[:l], r, o)
		}
		if l < 4 {
			if r, o := get(full[4 : 4+l : 4+l]); !o.failed() || o.panik != nil {
				t.Fatalf("DecodeDisambPrefixBytes(%x) = %+v %v", full[4:4+l], r, o)
			}
		}
	}
}

func TestC19(t *testing.T) {
	if !replay && shard == 0 {
		once(t, "all", checkPrimAll)
	}
	run(t, "roundtrip", 30, checkPrimRT)
	run(t, "arbitrary", 30, checkPrimAny)
	run(t, "prefixes", 5, checkDisfixPrim)
	run(t, "times", 4, checkTimePrim)
	run(t, "sizes", 0.05, checkSizedPrims)
}
