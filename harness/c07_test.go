package harness

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/metrics"
	"strings"
	"testing"
	"testing/iotest"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- memory

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// weight is the size of the largest thing one input byte or two can bring into
// being: the largest type reachable from rt.
func (w *World) weight(rt reflect.Type) uintptr {
	seen := map[reflect.Type]bool{}
	var max uintptr
	var walk func(rt reflect.Type)
	walk = func(rt reflect.Type) {
		if seen[rt] {
			return
		}
		seen[rt] = true
		if rt.Size() > max {
			max = rt.Size()
		}
		if m, ok := rt.MethodByName("MarshalAmino"); ok && m.Type.NumOut() > 0 {
			walk(m.Type.Out(0))
		}
		switch rt.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			walk(rt.Elem())
		case reflect.Struct:
			for i := 0; i < rt.NumField(); i++ {
				walk(rt.Field(i).Type)
			}
		case reflect.Interface:
			for _, c := range w.concs {
				walk(c.T)
			}
		}
	}
	walk(rt)
	return max
}

const (
	allocBase  = 256 << 10
	allocPer   = 64 // bytes per input byte, plus
	allocScale = 16 // times the weight of the type
)

func (w *World) allocLimit(rt reflect.Type, n int, depth int) uint64 {
	return uint64(allocBase + n*(allocPer+allocScale*int(w.weight(rt)))*(1+depth))
}

// checkAlloc runs f and compares what it allocates with the limit. The cheap
// counter lags behind and the first run may have to learn types, so an excess
// only counts if exact measurements of further runs all show it.
func checkAlloc(limit uint64, f func() outcome) (o outcome, used uint64) {
	a := allocated()
	o = f()
	used = allocated() - a
	for i := 0; i < 3 && o.panik == nil && used > limit; i++ {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		f()
		runtime.ReadMemStats(&m1)
		used = m1.TotalAlloc - m0.TotalAlloc
	}
	return o, used
}

// ---------------------------------------------------------------- entry points

var entryNames = []string{"bare", "length-prefixed", "reader", "reader-limited"}

// decodeBy decodes bz, framed as the entry point wants it, or raw.
func decodeBy(cdc *amino.Codec, entry int, bz []byte, p interface{}) outcome {
	return try(func() ([]byte, error) {
		switch entry {
		case 0:
			return nil, cdc.UnmarshalBinaryBare(bz, p)
		case 1:
			return nil, cdc.UnmarshalBinaryLengthPrefixed(bz, p)
		case 2:
			_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(bz), p, 0)
			return nil, err
		default:
			_, err := cdc.UnmarshalBinaryLengthPrefixedReader(iotest.OneByteReader(bytes.NewReader(bz)), p, 1<<20)
			return nil, err
		}
	})
}

func checkSurvive(t *rapid.T, d drawn, bz []byte, how string) {
	entry := pick(t, len(entryNames), "entry")
	if entry > 0 && pick(t, 3, "framed") > 0 {
		bz = append(uvarint(uint64(len(bz))), bz...)
	} else if entry > 0 && pick(t, 3, "claim") == 0 {
		bz = append(uvarint(pickFrom(t, bigClaims, "claim")), bz...)
	}
	orig := append([]byte{}, bz...)
	limit := d.w.allocLimit(d.rt, len(bz), 0)
	o, used := checkAlloc(limit, func() outcome { return decodeBy(d.w.cdc, entry, bz, reflect.New(d.rt).Interface()) })
	cls := "decoded"
	if o.err != nil {
		cls = "error"
	}
	ev.count(len(bz) > 1, caseFP(d.rt, bz), func() string {
		return fmt.Sprintf("%s, %s: %x into %v: %v, %d bytes allocated", entryNames[entry], how, clip(bz), d.rt, o, used)
	}, cls, "entry:"+entryNames[entry], "how:"+how)
	if o.panik != nil {
		t.Fatalf("decoding (%s, %s) panicked: %v\n input %x\n%v", entryNames[entry], how, o.panik, clip(orig), d)
	}
	if used > limit {
		t.Fatalf("decoding %d bytes (%s, %s) allocated %d bytes, more than %d\n input %x\n%v", len(bz), entryNames[entry], how, used, limit, clip(orig), d)
	}
	if !bytes.Equal(orig, bz) {
		t.Fatalf("decoding changed its input\n%v", d)
	}
}

// drawTarget: any type, interfaces at the top and shapes full of them included.
func drawTarget(t *rapid.T, json bool) drawn {
	w := drawWorld(t)
	var rt reflect.Type
	switch pick(t, 8, "target") {
	default:
		rt = drawTop(t, tctx{w: w, json: json, depth: 3})
	case 4:
		rt = pickFrom(t, []reflect.Type{tof(Tree{}), tof(MutA{}), tof(Tagged{}), tof(Wide{}), tof(RMid{}), tof(RFail(0)), tof([]RFailS{}), tof(Emb{})}, "st")
	case 5:
		if len(w.concs) > 0 {
			rt = pickFrom(t, w.concs, "tc").T
		}
	case 6:
		if len(w.concs) > 0 {
			rt = pickFrom(t, []reflect.Type{tof(IfWrap{}), tof(IfOne{}), tof(IfLists{}), tof(CNested{})}, "st")
		}
	case 7:
		if len(w.ifs) > 0 {
			rt = pickFrom(t, ifaceTypes, "it")
		}
	}
	if rt == nil {
		rt = tof(Tree{})
	}
	if pick(t, 6, "ptr") == 5 && rt.Kind() != reflect.Interface {
		rt = reflect.PtrTo(rt)
	}
	return drawn{w, rt, reflect.Zero(rt)}
}

// amplified repeats a piece of input many times.
func amplified(t *rapid.T, bz []byte) []byte {
	n := pickFrom(t, []int{50, 300, 2000, 8000}, "times")
	var piece []byte
	switch pick(t, 7, "piece") {
	case 0:
		piece = key(uint64(1+pick(t, 8, "num")), wBytes)
		piece = append(piece, 0)
	case 1:
		piece = append(key(uint64(1+pick(t, 8, "num")), wBytes), 1, byte(pick(t, 3, "b")))
	case 2: // one packed list of small numbers
		return append(key(uint64(1+pick(t, 8, "num")), wBytes), wrap(bytes.Repeat([]byte{byte(pick(t, 3, "b"))}, n))...)
	case 3: // a list of lists of empty things
		return append(key(uint64(1+pick(t, 8, "num")), wBytes), wrap(bytes.Repeat([]byte{0x0a, 0x00}, n))...)
	case 4:
		return bytes.Repeat([]byte{0x0a, 0x02, 0x0a, 0x00}, n)
	case 5:
		piece = soup(t)
	default:
		piece = bz
	}
	if len(piece) > 0 && len(piece)*n > 1<<20 {
		n = 1<<20/len(piece) + 1
	}
	out := bytes.Repeat(piece, n)
	if pick(t, 3, "wrapped") == 0 {
		out = append(key(uint64(1+pick(t, 4, "num")), wBytes), wrap(out)...)
	}
	return out
}

// nestBytes nests inner n deep: every level is pre, the length, the contents.
// It takes linear time.
func nestBytes(inner []byte, n int, pre []byte) []byte {
	rev := make([]byte, 0, len(inner)+n*(len(pre)+5))
	for i := len(inner) - 1; i >= 0; i-- {
		rev = append(rev, inner[i])
	}
	for ; n > 0; n-- {
		u := uvarint(uint64(len(rev)))
		for i := len(u) - 1; i >= 0; i-- {
			rev = append(rev, u[i])
		}
		for i := len(pre) - 1; i >= 0; i-- {
			rev = append(rev, pre[i])
		}
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return rev
}

type (
	// Deep nests through every construct.
	Deep struct {
		P *Deep
		L []Deep
		Q []*Deep
		I Any
		A [1]*Deep
		N int8
		S string
		T [][]Deep
	}
)

// nested: deeply nested input for recursive types, with anything at the bottom.
func nested(t *rapid.T) (d drawn, bz []byte, how string) {
	w := emptyWorld()
	w.add(regStep{i: &Iface{T: anyType}})
	c := newConc(tof(Deep{}), true, "deep")
	w.add(regStep{c: c})
	n := pickFrom(t, []int{10, 100, 1000, 5000, 15000}, "levels")
	leaf := pickFrom(t, [][]byte{{}, {0x30, 0x02}, {0x30}, {0x38, 0x01}, {0x0a, 0x05}, {0x3a, 0x01, 'x'}, {0x0a, 0x00}, {0x00}, {0x12, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x30, 0xff, 0x7f}, {0x98, 0x06, 0x00}}, "leaf")
	var pre []byte
	switch pick(t, 6, "how") {
	case 0:
		pre, how = []byte{0x0a}, "pointer"
	case 1:
		pre, how = []byte{0x12}, "slice"
	case 2:
		pre, how = []byte{0x1a}, "pointers"
	case 3:
		how = "interface"
		// every level: field 4, length, prefix bytes, contents
		rev := append([]byte{}, leaf...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		for i := 0; i < n; i++ {
			rev = append(rev, c.Prefix[3], c.Prefix[2], c.Prefix[1], c.Prefix[0])
			u := uvarint(uint64(len(rev)))
			for k := len(u) - 1; k >= 0; k-- {
				rev = append(rev, u[k])
			}
			rev = append(rev, 0x22)
		}
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		bz = rev
	case 4:
		pre, how = []byte{0x2a}, "array"
	default:
		how = "list of lists"
		bz = leaf
		rev := append([]byte{}, leaf...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		for i := 0; i < n/2; i++ {
			for _, b := range []byte{0x0a, 0x42} {
				u := uvarint(uint64(len(rev)))
				for k := len(u) - 1; k >= 0; k-- {
					rev = append(rev, u[k])
				}
				rev = append(rev, b)
			}
		}
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		bz = rev
	}
	if bz == nil {
		bz = nestBytes(leaf, n, pre)
	}
	rt := tof(Deep{})
	bz = append(append([]byte{}, c.Prefix[:]...), bz...)
	if pick(t, 4, "cut") == 3 {
		bz = bz[:len(bz)-pick(t, len(bz)/2+1, "by")]
	}
	return drawn{w, rt, reflect.Zero(rt)}, bz, "nested " + how
}

type decFn struct {
	name string
	f    func([]byte) (int, error)
}

var decFns = []decFn{
	{"DecodeInt8", func(b []byte) (int, error) { _, n, e := amino.DecodeInt8(b); return n, e }},
	{"DecodeInt16", func(b []byte) (int, error) { _, n, e := amino.DecodeInt16(b); return n, e }},
	{"DecodeInt32", func(b []byte) (int, error) { _, n, e := amino.DecodeInt32(b); return n, e }},
	{"DecodeInt64", func(b []byte) (int, error) { _, n, e := amino.DecodeInt64(b); return n, e }},
	{"DecodeVarint", func(b []byte) (int, error) { _, n, e := amino.DecodeVarint(b); return n, e }},
	{"DecodeByte", func(b []byte) (int, error) { _, n, e := amino.DecodeByte(b); return n, e }},
	{"DecodeUint8", func(b []byte) (int, error) { _, n, e := amino.DecodeUint8(b); return n, e }},
	{"DecodeUint16", func(b []byte) (int, error) { _, n, e := amino.DecodeUint16(b); return n, e }},
	{"DecodeUint32", func(b []byte) (int, error) { _, n, e := amino.DecodeUint32(b); return n, e }},
	{"DecodeUint64", func(b []byte) (int, error) { _, n, e := amino.DecodeUint64(b); return n, e }},
	{"DecodeUvarint", func(b []byte) (int, error) { _, n, e := amino.DecodeUvarint(b); return n, e }},
	{"DecodeBool", func(b []byte) (int, error) { _, n, e := amino.DecodeBool(b); return n, e }},
	{"DecodeFloat32", func(b []byte) (int, error) { _, n, e := amino.DecodeFloat32(b); return n, e }},
	{"DecodeFloat64", func(b []byte) (int, error) { _, n, e := amino.DecodeFloat64(b); return n, e }},
	{"DecodeTime", func(b []byte) (int, error) { _, n, e := amino.DecodeTime(b); return n, e }},
	{"DecodeByteSlice", func(b []byte) (int, error) { _, n, e := amino.DecodeByteSlice(b); return n, e }},
	{"DecodeString", func(b []byte) (int, error) { _, n, e := amino.DecodeString(b); return n, e }},
	{"DecodeDisambPrefixBytes", func(b []byte) (int, error) { _, _, _, _, n, e := amino.DecodeDisambPrefixBytes(b); return n, e }},
}

func checkPrimitives(t *rapid.T) {
	var bz []byte
	switch pick(t, 4, "in") {
	case 0:
		bz = drawBytes(t, pick(t, 14, "n"))
	case 1:
		bz = append(append([]byte{}, pickFrom(t, oddVarints, "v")...), drawBytes(t, pick(t, 6, "n"))...)
	case 2:
		bz = append(uvarint(pickFrom(t, bigClaims, "c")), drawBytes(t, pick(t, 6, "n"))...)
	default:
		bz = soup(t)
	}
	orig := append([]byte{}, bz...)
	for _, df := range decFns {
		n := 0
		limit := uint64(allocBase + 32*len(bz))
		o, used := checkAlloc(limit, func() outcome { return try(func() (_ []byte, err error) { n, err = df.f(bz); return }) })
		ev.count(len(bz) > 0, append([]byte(df.name), bz...), func() string { return fmt.Sprintf("%s(%x): n=%d, %v", df.name, clip(bz), n, o) }, df.name)
		if o.panik != nil {
			t.Fatalf("%s(%x) panicked: %v", df.name, bz, o.panik)
		}
		if n < 0 || n > len(bz) {
			t.Fatalf("%s(%x) says it read %d bytes of %d (%v)", df.name, bz, n, len(bz), o)
		}
		if used > limit {
			t.Fatalf("%s(%x) allocated %d bytes", df.name, bz, used)
		}
		if !bytes.Equal(orig, bz) {
			t.Fatalf("%s changed its input", df.name)
		}
	}
}

// deepFinding is how the known finding is listed.
const deepFinding = "stack overflow decoding millions of nested levels"

// checkDeepProbe runs the known finding in a process of its own.
func checkDeepProbe(t *testing.T, prop, mode, what string) {
	if shard != 0 || os.Getenv("VERIF_SELF") == "" {
		return
	}
	cmd := exec.Command(os.Getenv("VERIF_SELF"), "-test.run", "^TestProbe$")
	cmd.Env = append(os.Environ(), "VERIF_PROBE="+mode, "VERIF_EVID_OUT=", "GOMEMLIMIT=off")
	out, err := cmd.CombinedOutput()
	ev.count(true, []byte(mode), func() string { return "probe " + mode }, "probe")
	if err == nil {
		return
	}
	s := string(out)
	if !strings.Contains(s, "stack overflow") && !strings.Contains(s, "exceeds") {
		fmt.Println(s[:min(len(s), 3000)])
		t.Fatalf("probe %s failed otherwise: %v", mode, err)
	}
	reportFinding(t, prop, what)
}

// reportFinding prints a finding if it is listed, and fails if it isn't.
func reportFinding(t *testing.T, prop, what string) {
	b, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, "finding: property="+prop+" ") && strings.Contains(line, what) {
			known(prop, what)
			return
		}
	}
	t.Fatalf("VERIF-VIOLATION %s (not a listed finding)", what)
}

// TestProbe is run by checkDeepProbe in another process.
func TestProbe(t *testing.T) {
	switch os.Getenv("VERIF_PROBE") {
	case "":
		t.Skip()
	case "deep-binary":
		bz := nestBytes(nil, 1500000, []byte{0x22})
		var x Tree
		_ = amino.UnmarshalBinaryBare(bz, &x)
	}
}

// TestC07: nothing that is decoded makes the decoder panic, hang or allocate
// out of proportion.
func TestC07(t *testing.T) {
	run(t, "mutated", 20, func(t *rapid.T) {
		d, _, bz, how := badInput(t)
		checkSurvive(t, d, bz, how)
	})
	run(t, "arbitrary", 15, func(t *rapid.T) {
		d := drawTarget(t, false)
		how, bz := "soup", soup(t)
		if pick(t, 4, "raw") == 3 {
			how, bz = "random", drawBytes(t, pick(t, 200, "n"))
		}
		if c := d.w.byT[derefT(d.rt)]; c != nil && pick(t, 4, "pfx") > 0 {
			bz = append(append([]byte{}, c.Prefix[:]...), bz...)
		} else if d.rt.Kind() == reflect.Interface && len(d.w.concs) > 0 && pick(t, 4, "pfx") > 0 {
			c := pickFrom(t, d.w.concs, "c")
			p := append([]byte{}, c.Prefix[:]...)
			if pick(t, 2, "db") == 0 {
				p = append(append([]byte{0}, c.Disamb[:]...), p...)
			}
			bz = append(p, bz...)
		}
		checkSurvive(t, d, bz, how)
	})
	run(t, "amplified", 1.5, func(t *rapid.T) {
		d, _, bz, _ := badInput(t)
		checkSurvive(t, d, amplified(t, bz), "amplified")
	})
	run(t, "nested", 0.05, func(t *rapid.T) {
		d, bz, how := nested(t)
		checkSurvive(t, d, bz, how)
	})
	run(t, "primitives", 10, checkPrimitives)
	once(t, "probe", func(t *testing.T) { checkDeepProbe(t, "C07", "deep-binary", deepFinding) })
}

// ---------------------------------------------------------------- JSON

func depthOf(bz []byte) int {
	d, max := 0, 0
	for _, b := range bz {
		switch b {
		case '{', '[':
			d++
			if d > max {
				max = d
			}
		case '}', ']':
			d--
		}
	}
	return max
}

var jsonFrags = []string{"{", "}", "[", "]", ",", ":", `"F0":`, `"type":`, `"value":`, `"a"`, `""`, "1", "-1", `"12"`, "null", "true", "1e999", "0.5",
	`"2006-01-02T15:04:05Z"`, `"QUJD"`, `"QUJ"`, `"\ud800"`, "\"\xff\"", " ", "\n", `"A":`, `"Kids":[`, `"Next":{`, `"bs":[`, `{"type":"t/1","value":`, "99999999999999999999999999",
	`"18446744073709551615"`, "\x00", "nul", `"`, `\`, "[[", "]]", "{}", "[]"}

func jsonSoup(t *rapid.T, w *World) []byte {
	var b strings.Builder
	for i, n := 0, pick(t, 14, "n"); i < n; i++ {
		if len(w.concs) > 0 && chance(t, 8, "name") {
			fmt.Fprintf(&b, `{"type":%s,"value":`, quoteName(pickFrom(t, w.concs, "c").Name))
			continue
		}
		b.WriteString(pickFrom(t, jsonFrags, "frag"))
	}
	return []byte(b.String())
}

func checkSurviveJSON(t *rapid.T, d drawn, bz []byte, how string) {
	orig := append([]byte{}, bz...)
	limit := d.w.allocLimit(d.rt, len(bz), depthOf(bz))
	o, used := checkAlloc(limit, func() outcome {
		_, o := unmarshalJSON(d.w.cdc, bz, d.rt)
		return o
	})
	cls := "decoded"
	if o.err != nil {
		cls = "error"
	}
	ev.count(len(bz) > 1, caseFP(d.rt, bz), func() string {
		return fmt.Sprintf("%s: %s into %v: %v, %d bytes allocated", how, clip(bz), d.rt, o, used)
	}, cls, "how:"+how)
	if o.panik != nil {
		t.Fatalf("decoding (%s) panicked: %v\n input %q\n%v", how, o.panik, clip(orig), d)
	}
	if used > limit {
		t.Fatalf("decoding %d bytes (%s) allocated %d bytes, more than %d\n input %q\n%v", len(bz), how, used, limit, clip(orig), d)
	}
	if !bytes.Equal(orig, bz) {
		t.Fatalf("decoding changed its input\n%v", d)
	}
}

// TestC08: the same for JSON.
func TestC08(t *testing.T) {
	run(t, "mutated", 20, func(t *rapid.T) {
		d, _, bz, how := badJSON(t)
		checkSurviveJSON(t, d, bz, how)
	})
	run(t, "arbitrary", 15, func(t *rapid.T) {
		d := drawTarget(t, true)
		how, bz := "soup", jsonSoup(t, d.w)
		if pick(t, 5, "raw") == 4 {
			how, bz = "random", drawBytes(t, pick(t, 60, "n"))
		}
		if c := d.w.byT[derefT(d.rt)]; c != nil && pick(t, 4, "pfx") > 0 {
			bz = []byte(`{"type":` + quoteName(c.Name) + `,"value":` + string(bz) + "}")
		} else if d.rt.Kind() == reflect.Interface && len(d.w.concs) > 0 && pick(t, 4, "pfx") > 0 {
			bz = []byte(`{"type":` + quoteName(pickFrom(t, d.w.concs, "c").Name) + `,"value":` + string(bz) + "}")
		}
		checkSurviveJSON(t, d, bz, how)
	})
	run(t, "long", 1, func(t *rapid.T) {
		d := drawTarget(t, true)
		n := pickFrom(t, []int{100, 1000, 10000}, "times")
		piece := pickFrom(t, []string{"null", "{}", "[]", `""`, "1", `"1"`, `"QQ=="`, "[null]", `{"A":1}`, `{"Kids":[]}`, "true", "1e5", "[1]", `{"type":"","value":{}}`}, "piece")
		f := pickFrom(t, []string{"%s", `{"F0":%s}`, `{"F1":%s}`, `{"Kids":%s}`, `{"M":%s}`, `{"bs":%s}`, `{"Arr":%s}`, `{"Bools":%s}`, `{"Y":%s}`, `{"EE":%s}`}, "in")
		bz := []byte(fmt.Sprintf(f, "["+strings.Repeat(piece+",", n-1)+piece+"]"))
		if pick(t, 4, "digits") == 3 {
			bz = []byte(fmt.Sprintf(f, pickFrom(t, []string{`"%s"`, "%s", "0.%s", "1e%s", "-%s"}, "numf")))
			bz = []byte(strings.Replace(string(bz), "%s", strings.Repeat("7", n), 1))
		}
		checkSurviveJSON(t, d, bz, "long")
	})
	run(t, "nested", 0.04, func(t *rapid.T) {
		d, _, _ := nested(t)
		n := pickFrom(t, []int{10, 100, 1000, 4999, 9999, 20000, 100000}, "levels")
		pre, post, how := `{"P":`, "}", "pointer"
		switch pick(t, 6, "how") {
		case 1:
			pre, post, how = `{"L":[`, "]}", "slice"
		case 2:
			pre, post, how = `{"I":{"type":"deep","value":`, "}}", "interface"
		case 3:
			pre, post, how = `{"T":[[`, "]]}", "list of lists"
		case 4:
			pre, post, how = `[`, "]", "brackets"
		case 5:
			pre, post, how = `{"X":`, "}", "unknown"
		}
		if n > 1000 && how != "brackets" {
			n = 1000 + n/20 // contents are copied once per level
		}
		leaf := pickFrom(t, []string{"null", "{}", "{", "", `"x"`, "[]", `{"N":300}`}, "leaf")
		bz := []byte(`{"type":"deep","value":` + strings.Repeat(pre, n) + leaf + strings.Repeat(post, n-pick(t, 2, "less")) + "}")
		checkSurviveJSON(t, d, bz, "nested "+how)
	})
}
