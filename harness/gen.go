package harness

import (
	"crypto/sha256"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
	"unicode"
	"unsafe"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- small draws

var genCache = map[int]*rapid.Generator[int]{}

// pick draws from [0,n); shrinks towards 0.
func pick(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	g := genCache[n]
	if g == nil {
		vals := make([]int, n)
		for i := range vals {
			vals[i] = i
		}
		g = rapid.SampledFrom(vals)
		genCache[n] = g
	}
	return g.Draw(t, label)
}

// chance is true about once in n.
func chance(t *rapid.T, n int, label string) bool { return pick(t, n, label) == n-1 && n > 1 }

func pickFrom[T any](t *rapid.T, s []T, label string) T { return s[pick(t, len(s), label)] }

var (
	g64        = rapid.Int64()
	gu64       = rapid.Uint64()
	gByte      = rapid.Byte()
	boundaries []int64
)

func init() {
	boundaries = []int64{0, 1, -1, 2, 7, 10, 63, 64, 127, 128, -63, -64, -65, -127, -128, -129}
	for k := uint(7); k < 64; k += 7 {
		b := int64(1) << k
		boundaries = append(boundaries, b-1, b, b+1, -b-1, -b, -b+1)
	}
	for _, k := range []uint{8, 15, 16, 31, 32, 62} {
		b := int64(1) << k
		boundaries = append(boundaries, b-1, b, b+1, -b-1, -b, -b+1)
	}
	boundaries = append(boundaries, math.MaxInt64, math.MaxInt64-1, math.MinInt64, math.MinInt64+1)
}

func drawInt(t *rapid.T, bitsize int) int64 {
	var v int64
	switch k := pick(t, 16, "ik"); {
	case k < 7:
		v = pickFrom(t, boundaries, "ib")
	case k < 9:
		v = dictInt(t)
	default:
		v = g64.Draw(t, "i")
	}
	sh := uint(64 - bitsize)
	return v << sh >> sh
}

// dictInt draws a number of the dictionary, or one next to it.
func dictInt(t *rapid.T) int64 { return pickFrom(t, dict.Ints, "di") + int64(pick(t, 3, "dn")) - 1 }

func drawUint(t *rapid.T, bitsize int) uint64 {
	var v uint64
	switch k := pick(t, 16, "uk"); {
	case k < 7:
		v = uint64(pickFrom(t, boundaries, "ub"))
	case k < 9:
		v = uint64(dictInt(t))
	default:
		v = gu64.Draw(t, "u")
	}
	sh := uint(64 - bitsize)
	return v << sh >> sh
}

func drawFloat(t *rapid.T, bitsize int, finite bool) float64 {
	var f float64
	switch pick(t, 4, "fk") {
	case 0:
		f = pickFrom(t, []float64{0, 1, -1, 0.5, 1.5, -2.25, 1e6, 1e20, 1e21, 1e22, 1e-6, 1e-7, 100000000, 0.1, 1 / 3.0,
			math.MaxFloat32, math.SmallestNonzeroFloat32}, "f")
	case 1:
		if bitsize == 64 {
			f = pickFrom(t, []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, math.Copysign(0, -1), math.Pi}, "f")
		} else {
			f = pickFrom(t, []float64{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.Copysign(0, -1)}, "f")
		}
	case 2:
		f = rapid.Float64().Draw(t, "f")
	default:
		if !finite {
			f = pickFrom(t, []float64{math.Inf(1), math.Inf(-1), math.NaN()}, "f")
		}
	}
	if bitsize == 32 {
		f = float64(float32(f))
		if finite && math.IsInf(f, 0) {
			f = math.MaxFloat32
		}
	}
	return f
}

var lenBounds = []int{127, 128, 129, 255, 256, 300}
var lenBig = []int{16383, 16384, 16385, 65535, 65536}

// drawLen draws the length of a string or byte slice.
func drawLen(t *rapid.T) int {
	switch pick(t, 16, "lk") {
	default:
		return pick(t, 8, "l")
	case 13:
		return pickFrom(t, lenBounds, "lb")
	case 14:
		return pickFrom(t, dict.lens, "ld") + pick(t, 3, "ln") - 1
	case 15:
		if chance(t, 6, "big") {
			return pickFrom(t, lenBig, "lB")
		}
		return 1
	}
}

func drawBytes(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	if n <= 16 {
		for i := range b {
			b[i] = gByte.Draw(t, "b")
		}
		return b
	}
	fill, step := gByte.Draw(t, "fill"), gByte.Draw(t, "step")
	for i := range b {
		b[i] = fill + byte(i)*step
	}
	return b
}

var strFrags = []string{"a", "", "b", "Z9", "\x00", " ", "\"", "\\", "/", "<>&", "\u2028", "\u2029", "é", "世", "😀", "\n\t\r", "\x7f", "\x1f", "\ufffd", "null", "-", "0", ",", "\u0080", "'", "{\"type\":\"x\"}"}

func drawString(t *rapid.T, utf8 bool) string {
	if utf8 {
		if chance(t, 20, "slong") {
			return strings.Repeat(pickFrom(t, strFrags, "sf"), pickFrom(t, lenBounds, "sl"))
		}
		n := pick(t, 5, "sn")
		s := ""
		if chance(t, 16, "sdict") {
			s = strings.ToValidUTF8(pickFrom(t, dict.Strs, "sd"), "")
		}
		for i := 0; i < n; i++ {
			s += pickFrom(t, strFrags, "sf")
		}
		return s
	}
	return string(drawBytes(t, drawLen(t)))
}

var zones = []*time.Location{time.UTC, time.FixedZone("P", 5*3600+1800), time.FixedZone("M", -11*3600-7), time.FixedZone("", 1)}

const (
	minSec = -62135596800
	maxSec = 253402300799
)

func drawTime(t *rapid.T) time.Time {
	var sec, nsec int64
	switch pick(t, 5, "tk") {
	case 4:
		sec = dictInt(t)
		if sec < minSec || sec > maxSec {
			sec = sec & (1<<32 - 1)
		}
	case 0:
		sec = pickFrom(t, []int64{0, 1, -1, 127, 128, 1 << 31, -1 << 31, 1<<31 - 1, 1 << 32, 951782400, 1e9}, "sec")
	case 1:
		sec = pickFrom(t, []int64{maxSec, minSec, maxSec - 1, minSec + 1, -1e9}, "sec")
	case 2:
		sec = rapid.Int64Range(minSec, maxSec).Draw(t, "sec")
	default:
		sec = rapid.Int64Range(0, 1<<32).Draw(t, "sec")
	}
	switch pick(t, 4, "nk") {
	case 3:
		nsec = dictInt(t)
		if nsec < 0 || nsec > 999999999 {
			nsec = nsec & (1<<29 - 1)
		}
	case 0:
		nsec = pickFrom(t, []int64{0, 1, 999999999, 1000, 1000000, 500000000, 127, 128, 100}, "ns")
	case 1:
	default:
		nsec = rapid.Int64Range(0, 999999999).Draw(t, "ns")
	}
	tm := time.Unix(sec, nsec).UTC()
	if chance(t, 4, "mono") && sec > 0 && sec < 1<<32 {
		now := time.Now() // the result's wall clock doesn't depend on it
		tm = now.Add(tm.Sub(now))
	}
	if z := pickFrom(t, zones, "zone"); z != time.UTC {
		// Keep the year within 1..9999 in UTC only; the zone may move the local year.
		tm = tm.In(z)
	} else if !strings.Contains(tm.String(), "m=") {
		tm = tm.UTC()
	}
	return tm
}

// ---------------------------------------------------------------- the world: a codec and what is registered on it

type Conc struct {
	T      reflect.Type
	Ptr    bool
	Name   string
	Disamb [3]byte
	Prefix [4]byte
}

type Iface struct {
	T        reflect.Type
	Always   bool
	Priority []string
}

type World struct {
	cdc   *amino.Codec
	concs []*Conc
	byT   map[reflect.Type]*Conc
	ifs   map[reflect.Type]*Iface
	ord   []regStep
}

type regStep struct {
	i *Iface
	c *Conc
}

// disfix computes disambiguation and prefix bytes from the documented rule.
func disfix(name string) (db [3]byte, pb [4]byte) {
	h := sha256.Sum256([]byte(name))
	b := h[:]
	for b[0] == 0 {
		b = b[1:]
	}
	copy(db[:], b)
	b = b[3:]
	for b[0] == 0 {
		b = b[1:]
	}
	copy(pb[:], b)
	return
}

func newConc(t reflect.Type, ptr bool, name string) *Conc {
	c := &Conc{T: t, Ptr: ptr, Name: name}
	c.Disamb, c.Prefix = disfix(name)
	return c
}

func (c *Conc) form() reflect.Type {
	if c.Ptr {
		return reflect.PtrTo(c.T)
	}
	return c.T
}

func emptyWorld() *World {
	return &World{cdc: amino.NewCodec(), byT: map[reflect.Type]*Conc{}, ifs: map[reflect.Type]*Iface{}}
}

func (s regStep) apply(cdc *amino.Codec) {
	if s.i != nil {
		var opts *amino.InterfaceOptions
		if s.i.Always || s.i.Priority != nil {
			opts = &amino.InterfaceOptions{Priority: s.i.Priority, AlwaysDisambiguate: s.i.Always}
		}
		cdc.RegisterInterface(reflect.Zero(reflect.PtrTo(s.i.T)).Interface(), opts)
		return
	}
	if s.c.Ptr {
		cdc.RegisterConcrete(reflect.Zero(reflect.PtrTo(s.c.T)).Interface(), s.c.Name, nil)
	} else {
		cdc.RegisterConcrete(reflect.Zero(s.c.T).Interface(), s.c.Name, nil)
	}
}

func (w *World) add(s regStep) {
	s.apply(w.cdc)
	w.ord = append(w.ord, s)
	if s.i != nil {
		w.ifs[s.i.T] = s.i
	} else {
		w.concs = append(w.concs, s.c)
		w.byT[s.c.T] = s.c
	}
}

// fresh returns a new codec with the same registrations, in the given order.
func (w *World) fresh(order []int) *amino.Codec {
	cdc := amino.NewCodec()
	for i := range w.ord {
		k := i
		if order != nil {
			k = order[i]
		}
		w.ord[k].apply(cdc)
	}
	return cdc
}

func (w *World) clone() *World {
	return &World{cdc: w.fresh(nil), concs: w.concs, byT: w.byT, ifs: w.ifs, ord: w.ord}
}

// implementers of an interface, "for extra safety" judged by the pointer type.
func (w *World) implementers(it reflect.Type) (out []*Conc) {
	for _, c := range w.concs {
		if reflect.PtrTo(c.T).Implements(it) {
			out = append(out, c)
		}
	}
	return
}

// usable concretes: those whose registered form implements the interface.
func (w *World) usable(it reflect.Type) (out []*Conc) {
	for _, c := range w.concs {
		if c.form().Implements(it) {
			out = append(out, c)
		}
	}
	return
}

func (w *World) needDisamb(it reflect.Type, c *Conc) bool {
	if w.ifs[it].Always {
		return true
	}
	n := 0
	for _, d := range w.implementers(it) {
		if d.Prefix == c.Prefix {
			n++
		}
	}
	return n > 1
}

// Names with colliding prefixes, colliding disambiguation bytes and hashes with
// zero bytes where they are skipped.
var (
	collidePairs = [][]string{{"n/734897", "n/2904283"}, {"n/5859420", "n/6142624"}, {"n/1852739", "n/6024113"},
		{"n/4467809", "n/4773212"}, {"n/908145", "n/2915553"}, {"n/1593390", "n/6048089"}, {"n/2409115", "n/5883698"},
		{"n/3288894", "n/4359732"}, {"n/7435882", "n/7800242"}, {"n/2057605", "n/2123555"}, {"n/4689475", "n/5760714"},
		{"n/4470970", "n/5289000"}}
	collideTriples = [][]string{{"n/3999132", "n/4537974", "n/7086456"}, {"n/947844", "n/2463999", "n/5579495"}, {"n/1827172", "n/4704350", "n/5691122"}}
	disambPairs    = [][]string{{"n/2267", "n/4679"}, {"n/2771", "n/6646"}, {"n/1126", "n/9496"}, {"n/8590", "n/10766"}}
	zeroNames      = []string{"n/1324", "n/1997", "n/2023", "n/89858", "n/211908", "n/303785", "n/636", "n/1971", "n/2119",
		"n/22274", "n/80815", "n/81634", "n/90269", "n/124504", "n/167912"}
	oddNames = []string{"a", "com.tendermint/T", "we\"ird", "sl\\ash", "<&>", "new\nline", "世界", " sp ace ", "{}", "null", "type"}
)

func drawNames(t *rapid.T, n int) (names []string, collide bool) {
	used := map[string]bool{}
	addAll := func(s []string) {
		for _, x := range s {
			if len(names) < n && !used[x] {
				names = append(names, x)
				used[x] = true
			}
		}
	}
	for len(names) < n {
		switch pick(t, 8, "namek") {
		default:
			addAll([]string{fmt.Sprintf("t/%d", rapid.IntRange(0, 1<<20).Draw(t, "name"))})
		case 3, 4:
			addAll(pickFrom(t, collidePairs, "pair"))
		case 5:
			addAll(pickFrom(t, collideTriples, "triple"))
		case 6:
			addAll(pickFrom(t, disambPairs, "dpair"))
		case 7:
			if pick(t, 2, "zo") == 0 {
				addAll([]string{pickFrom(t, zeroNames, "zname")})
			} else {
				addAll([]string{pickFrom(t, oddNames, "oname")})
			}
		}
	}
	seen := map[[4]byte]bool{}
	for _, x := range names {
		_, pb := disfix(x)
		collide = collide || seen[pb]
		seen[pb] = true
	}
	return
}

// drawWorld draws a codec with registered interfaces and concretes.
func drawWorld(t *rapid.T, extra ...reflect.Type) *World {
	w := emptyWorld()
	if len(extra) == 0 && pick(t, 3, "world") == 0 {
		return w
	}
	n := 1 + pick(t, 6, "nconc")
	perm := rapid.Permutation(concreteTypes).Draw(t, "concretes")
	ts := append(append([]reflect.Type{}, extra...), perm[:n]...)
	names, collide := drawNames(t, len(ts))
	var steps []regStep
	for i, ct := range ts {
		ptr := onlyPtr[ct] || pick(t, 3, "ptr") == 0
		steps = append(steps, regStep{c: newConc(ct, ptr, names[i])})
	}
	for _, it := range ifaceTypes {
		ifc := &Iface{T: it, Always: pick(t, 4, "always") == 3}
		if collide {
			ifc.Priority = names
		}
		steps = append(steps, regStep{i: ifc})
	}
	order := rapid.Permutation(seq(len(steps))).Draw(t, "regorder")
	for _, k := range order {
		w.add(steps[k])
	}
	return w
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// ---------------------------------------------------------------- types

type tctx struct {
	w     *World
	json  bool // maps are allowed, list nesting isn't limited
	depth int
	list  int // how many more nested lists are allowed here
	float bool
	noTop bool // inside something
	noInt bool // no interfaces
}

func (c tctx) deeper() tctx { c.depth--; return c }

var scalarKinds = []reflect.Kind{reflect.Int, reflect.Int64, reflect.String, reflect.Bool, reflect.Int32, reflect.Uint64, reflect.Uint32,
	reflect.Int8, reflect.Int16, reflect.Uint8, reflect.Uint16, reflect.Uint}

func drawScalarType(t *rapid.T, c tctx) reflect.Type {
	kinds := scalarKinds
	var k reflect.Kind
	if c.float && pick(t, 2, "fl") == 1 {
		k = pickFrom(t, []reflect.Kind{reflect.Float64, reflect.Float32}, "fkind")
	} else {
		k = pickFrom(t, kinds, "kind")
	}
	if chance(t, 4, "named") {
		return namedScalars[k]
	}
	return plainScalars[k]
}

func isByteBottom(rt reflect.Type) bool {
	for rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
		rt = rt.Elem()
	}
	return rt.Kind() == reflect.Uint8
}

func isListKind(rt reflect.Type) bool {
	return rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array
}

func listOf(t *rapid.T, et reflect.Type) reflect.Type {
	switch pick(t, 3, "sl") {
	case 0, 1:
		return reflect.SliceOf(et)
	default:
		return reflect.ArrayOf(pickFrom(t, []int{1, 2, 3, 0, 5}, "alen"), et)
	}
}

func drawType(t *rapid.T, c tctx) reflect.Type {
	if c.json && c.list < 2 {
		c.list = 2
	}
	if c.depth <= 0 {
		switch pick(t, 4, "leaf") {
		default:
			return drawScalarType(t, c)
		case 2:
			return pickFrom(t, byteLists, "bl")
		case 3:
			return timeType
		}
	}
	switch pick(t, 14, "tk") {
	case 0, 1, 2:
		return drawScalarType(t, c)
	case 3:
		return pickFrom(t, byteLists, "bl")
	case 4:
		return timeType
	case 5: // pointer
		d := c.deeper()
		d.list = 1
		d.noInt = true
		return reflect.PtrTo(drawTypeNoIface(t, d))
	case 6, 7: // list
		if c.list < 1 {
			return drawScalarType(t, c)
		}
		d := c.deeper()
		d.list = c.list - 1
		return listOf(t, drawType(t, d))
	case 8:
		return drawStruct(t, c.deeper())
	case 9:
		return pickFrom(t, staticStructs, "ss")
	case 10: // interface
		if c.noInt || len(c.w.ifs) == 0 {
			return drawScalarType(t, c)
		}
		return pickFrom(t, ifaceTypes, "it")
	case 11:
		pool := reprTypes
		if pick(t, 6, "own") < map[bool]int{true: 3, false: 1}[c.json] {
			pool = jsonTypes
		}
		rt := pickFrom(t, pool, "rt")
		if isListKind(rt) && !isByteBottom(rt) && c.list < 1 {
			rt = tof(RInt(0))
		}
		return rt
	case 12: // lists of bytes, nested freely
		rt := pickFrom(t, byteLists, "bl")
		for i, n := 0, 1+pick(t, 3, "bn"); i < n; i++ {
			rt = listOf(t, rt)
		}
		return rt
	default:
		if c.json {
			kt := tof("")
			if chance(t, 3, "mk") {
				kt = tof(MyStr(""))
			}
			return reflect.MapOf(kt, drawType(t, c.deeper()))
		}
		if c.list < 1 {
			return drawScalarType(t, c)
		}
		return pickFrom(t, namedLists, "nl")
	}
}

func drawTypeNoIface(t *rapid.T, c tctx) reflect.Type {
	rt := drawType(t, c)
	if rt.Kind() == reflect.Interface {
		return tof(int(0))
	}
	return rt
}

var jsonNames = []string{"", "", "", "x%d", "n_%d", "é%d", "w \\\"q%d", "<%d>"}

func drawStruct(t *rapid.T, c tctx) reflect.Type {
	n := 0
	switch pick(t, 12, "nf") {
	default:
		n = pick(t, 6, "n")
	case 10:
		n = 14 + pick(t, 6, "n")
	}
	return drawStructN(t, c, n)
}

func drawStructN(t *rapid.T, c tctx, n int) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, drawField(t, c, i))
	}
	return reflect.StructOf(fs)
}

const pkgPath = "verif/harness"

func drawField(t *rapid.T, c tctx, i int) reflect.StructField {
	d := c
	d.noTop, d.list, d.float, d.noInt = true, 2, false, false
	f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
	switch pick(t, 16, "fk") {
	case 14: // unexported
		f.Name = fmt.Sprintf("f%d", i)
		f.PkgPath = pkgPath
		f.Type = pickFrom(t, []reflect.Type{tof(0), tof(""), tof([]string{}), tof(map[int]int{})}, "ut")
		return f
	case 15: // excluded
		f.Tag = `json:"-"`
		f.Type = pickFrom(t, []reflect.Type{tof(0), tof(""), tof(Inner{}), tof([][][]int{}), tof(&Leaf{})}, "et")
		return f
	}
	var tags []string
	var am []string
	js := ""
	if chance(t, 3, "jn") {
		js = pickFrom(t, jsonNames, "jname")
		if strings.Contains(js, "%d") {
			js = fmt.Sprintf(js, i)
		}
		if chance(t, 12, "dash") && i == 0 {
			js = "-"
		}
	}
	omit := chance(t, 4, "omit")
	if omit {
		js += ",omitempty"
	} else if js == "-" {
		js = "-,"
	} else if js != "" && chance(t, 5, "comma") {
		js += ",string,foo"
	}
	if js != "" {
		tags = append(tags, `json:"`+js+`"`)
	}
	switch pick(t, 6, "bin") {
	case 4:
		tags = append(tags, `binary:"fixed64"`)
	case 5:
		tags = append(tags, `binary:"fixed32"`)
	}
	if chance(t, 5, "unsafe") {
		am = append(am, "unsafe")
		d.float = true
	}
	if chance(t, 6, "we") {
		am = append(am, "write_empty")
	}
	if chance(t, 5, "ee") {
		am = append(am, "empty_elements")
	}
	if len(am) > 0 {
		tags = append(tags, `amino:"`+strings.Join(am, ",")+`"`)
	}
	f.Tag = reflect.StructTag(strings.Join(tags, " "))
	f.Type = drawType(t, d)
	return f
}

// drawTop draws a type for the top level.
func drawTop(t *rapid.T, c tctx) reflect.Type {
	c.list = 1
	c.noInt = true
	switch pick(t, 4, "top") {
	case 0, 1:
		return drawStruct(t, c)
	case 2:
		return pickFrom(t, staticStructs, "ss")
	default:
		return drawTypeNoIface(t, c)
	}
}

// drawBigStruct draws a struct with many fields (3-byte field keys).
func bigStruct(n int) reflect.Type {
	fs := make([]reflect.StructField, n)
	ts := []reflect.Type{tof(int(0)), tof(""), tof([]string{}), tof(&Leaf{}), tof([]int8{}), tof(false), timeType}
	for i := range fs {
		fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ts[i%len(ts)]}
	}
	return reflect.StructOf(fs)
}

// ---------------------------------------------------------------- values

type vctx struct {
	w      *World
	json   bool
	budget *int
	depth  int
	ee     bool // empty_elements in force
	compl  bool // all pointers non-nil, lists non-empty (as long as the budget lasts)
}

func newV(w *World, json bool) vctx {
	b := 60
	return vctx{w: w, json: json, budget: &b, depth: 8}
}

func drawValue(t *rapid.T, rt reflect.Type, c vctx) reflect.Value {
	rv := reflect.New(rt).Elem()
	fillValue(t, rv, c)
	return rv
}

// settable makes an unexported field of an addressable struct settable.
func settable(f reflect.Value) reflect.Value {
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func fillValue(t *rapid.T, rv reflect.Value, c vctx) {
	*c.budget--
	low := *c.budget <= 0 || c.depth <= 0
	d := c
	d.depth--
	rt := rv.Type()
	switch {
	case rt == timeType:
		rv.Set(reflect.ValueOf(drawTime(t)))
		return
	case rt == tof(RStruct{}) || rt == tof(CRepr{}):
		a, b := int32(drawInt(t, 32)), drawString(t, true)
		var l []uint16
		for i, n := 0, pick(t, 3, "rl"); i < n; i++ {
			l = append(l, uint16(drawUint(t, 16)))
		}
		rv.Set(reflect.ValueOf(RStruct{a, b, l}).Convert(rt))
		return
	case rt == tof(RStr("")):
		rv.SetString(drawString(t, true))
		return
	case rt == tof(JBoth{}):
		rv.Set(reflect.ValueOf(JBoth{drawInt(t, 64)}))
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		rv.SetBool(pick(t, 2, "bool") == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(drawInt(t, rt.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(drawUint(t, rt.Bits()))
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(drawFloat(t, rt.Bits(), c.json))
	case reflect.String:
		rv.SetString(drawString(t, c.json))
	case reflect.Ptr:
		if low || (!c.compl && pick(t, 4, "nil") == 0) {
			return
		}
		p := reflect.New(rt.Elem())
		fillValue(t, p.Elem(), d)
		rv.Set(p)
	case reflect.Slice:
		et := rt.Elem()
		if et.Kind() == reflect.Uint8 {
			switch pick(t, 6, "bs") {
			case 0:
				if c.compl {
					rv.Set(reflect.MakeSlice(rt, 1, 1))
				}
			case 1:
				rv.Set(reflect.MakeSlice(rt, 0, 0))
			default:
				b := drawBytes(t, drawLen(t))
				s := reflect.MakeSlice(rt, len(b), len(b)+pick(t, 2, "cap"))
				copy(s.Bytes(), b)
				rv.Set(s)
			}
			return
		}
		n := 0
		switch k := pick(t, 8, "sk"); {
		case low || (k == 0 && !c.compl):
			return
		case k == 1 && !c.compl:
		case k == 7 && isScalarKind(et.Kind()) && chance(t, 3, "long"):
			if n = pickFrom(t, lenBounds, "slen"); chance(t, 3, "sdict") {
				n = pickFrom(t, dict.lens, "sld") + pick(t, 3, "sln") - 1
			}
			s := reflect.MakeSlice(rt, n, n)
			one := reflect.New(et).Elem()
			fillValue(t, one, d)
			for i := 0; i < n; i += 1 + i%3 {
				s.Index(i).Set(one)
			}
			rv.Set(s)
			return
		case k == 7 && et.Kind() != reflect.Interface && chance(t, 12, "longer"):
			// Many elements of two kinds.
			if n = 5 + pick(t, 14, "slen"); chance(t, 3, "sdict") {
				n = pickFrom(t, dict.lens, "sld")%400 + pick(t, 3, "sln")
			}
			one, two := reflect.New(et).Elem(), reflect.New(et).Elem()
			fillElem(t, one, d)
			fillElem(t, two, d)
			s := reflect.MakeSlice(rt, n, n)
			for i, x := 0, rapid.Uint64().Draw(t, "which"); i < n; i++ {
				if s.Index(i).Set(one); x>>(i%63)&1 == 1 {
					s.Index(i).Set(two)
				}
			}
			rv.Set(s)
			return
		default:
			n = 1 + pick(t, 4, "n")
		}
		s := reflect.MakeSlice(rt, n, n+pick(t, 2, "cap"))
		for i := 0; i < n; i++ {
			fillElem(t, s.Index(i), d)
		}
		rv.Set(s)
	case reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			b := drawBytes(t, rt.Len())
			copy(rv.Slice(0, rt.Len()).Bytes(), b)
			return
		}
		for i := 0; i < rt.Len(); i++ {
			fillElem(t, rv.Index(i), d)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			if sf.PkgPath != "" {
				fillJunk(settable(rv.Field(i)))
				continue
			}
			if sf.Tag.Get("json") == "-" {
				fillJunk(rv.Field(i))
				continue
			}
			e := d
			e.ee = hasTag(sf.Tag.Get("amino"), "empty_elements")
			fillValue(t, rv.Field(i), e)
		}
	case reflect.Interface:
		us := c.w.usable(rt)
		if low || len(us) == 0 || (!c.compl && pick(t, 5, "nilif") == 0) {
			return
		}
		cc := pickFrom(t, us, "conc")
		v := reflect.New(cc.T)
		fillValue(t, v.Elem(), d)
		if cc.Ptr {
			rv.Set(v)
		} else {
			rv.Set(v.Elem())
		}
	case reflect.Map:
		switch k := pick(t, 5, "mapk"); {
		case low || k == 0:
			return
		default:
			n := k - 1
			m := reflect.MakeMap(rt)
			for i := 0; i < n; i++ {
				key := reflect.New(rt.Key()).Elem()
				key.SetString(drawString(t, true))
				val := reflect.New(rt.Elem()).Elem()
				fillElem(t, val, d)
				m.SetMapIndex(key, val)
			}
			rv.Set(m)
		}
	default:
		panic("no generator for " + rt.String())
	}
}

// fillElem fills a list element; under empty_elements it is never nil.
func fillElem(t *rapid.T, rv reflect.Value, c vctx) {
	fillValue(t, rv, c)
	if c.ee && rv.Kind() == reflect.Ptr && derefT(rv.Type()).Kind() == reflect.Struct {
		for p := rv; p.Kind() == reflect.Ptr; p = p.Elem() {
			if p.IsNil() {
				p.Set(reflect.New(p.Type().Elem()))
				if x := p.Elem(); x.Type() == timeType {
					x.Set(reflect.ValueOf(time.Unix(0, 0).UTC()))
				}
			}
		}
	}
}

// fillJunk sets a field that must not be encoded.
func fillJunk(f reflect.Value) {
	switch f.Kind() {
	case reflect.Int:
		f.SetInt(7)
	case reflect.String:
		f.SetString("junk")
	case reflect.Slice:
		f.Set(reflect.MakeSlice(f.Type(), 1, 1))
	case reflect.Ptr:
		f.Set(reflect.New(f.Type().Elem()))
	}
}

func isScalarKind(k reflect.Kind) bool { return k >= reflect.Bool && k <= reflect.Float64 }

func derefT(rt reflect.Type) reflect.Type {
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return rt
}

func hasTag(tag, name string) bool {
	for _, s := range strings.Split(tag, ",") {
		if s == name {
			return true
		}
	}
	return false
}

func exportedName(name string) bool {
	for _, r := range name {
		return unicode.IsUpper(r)
	}
	return false
}
