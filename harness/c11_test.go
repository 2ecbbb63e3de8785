package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- readers and writers

var errRead = errors.New("read error 94b0")

// chunkReader hands out data in chunks and counts what was taken. After the
// data it returns end.
type chunkReader struct {
	data   []byte
	chunks []int // sizes, used in turn; 0 is a read that returns nothing
	i      int
	eofNow bool // return the end together with the last data
	end    error
	taken  int
	max    int // largest buffer asked for
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) > r.max {
		r.max = len(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.taken == len(r.data) {
		return 0, r.end
	}
	n := len(p)
	if len(r.chunks) > 0 {
		c := r.chunks[r.i%len(r.chunks)]
		r.i++
		if c < n {
			n = c
		}
	}
	n = copy(p[:n], r.data[r.taken:])
	r.taken += n
	if r.eofNow && r.taken == len(r.data) {
		return n, r.end
	}
	return n, nil
}

func drawReader(t *rapid.T, data []byte, end error) *chunkReader {
	r := &chunkReader{data: data, end: end, eofNow: pick(t, 3, "eofNow") == 2}
	some := false
	for i, n := 0, pick(t, 5, "nchunks"); i < n; i++ {
		c := pickFrom(t, []int{1, 2, 3, 7, 100, 0, 4096}, "chunk")
		some = some || c > 0
		r.chunks = append(r.chunks, c)
	}
	if !some {
		r.chunks = nil
	}
	return r
}

// limWriter takes at most left bytes; if it heals, it fails once and goes on
// as if nothing had been.
type limWriter struct {
	got   []byte
	left  int
	err   error
	heals bool
}

func (w *limWriter) Write(b []byte) (int, error) {
	n := len(b)
	if n > w.left {
		n = w.left
	}
	w.left -= n
	w.got = append(w.got, b[:n]...)
	if n < len(b) {
		if w.heals {
			w.left = 1 << 40
		}
		return n, w.err
	}
	return n, nil
}

func frame(body []byte) []byte { return append(uvarint(uint64(len(body))), body...) }

func drawEncodable(t *rapid.T, w *World) (reflect.Type, reflect.Value, []byte) {
	rt := drawTop(t, tctx{w: w, depth: 2})
	if len(w.concs) > 0 && chance(t, 4, "topconc") {
		rt = pickFrom(t, w.concs, "tc").T
	}
	if rt.Kind() == reflect.Interface {
		rt = tof(0)
	}
	rv := drawValue(t, rt, newV(w, false))
	if topNil(rv) {
		rt = tof(Leaf{})
		rv = reflect.ValueOf(&Leaf{N: 5}).Elem()
	}
	body, err := w.encTop(rv)
	if err != nil {
		t.Fatalf("reference: %v", err)
	}
	return rt, rv, body
}

func checkWriter(t *rapid.T) {
	w := drawWorld(t)
	rt, rv, body := drawEncodable(t, w)
	d := drawn{w, rt, rv}
	want := frame(body)
	ev.count(len(want) > 2, caseFP(rt, want), func() string { return fmt.Sprintf("%x framed: %v", clip(want), d) }, shape(rt, body)...)
	v := asArg(t, rv)
	o := try(func() ([]byte, error) { return w.cdc.MarshalBinaryLengthPrefixed(v) })
	if o.failed() || !bytes.Equal(o.bz, want) {
		t.Fatalf("length-prefixed form is %v, want %x\n%v", o, want, d)
	}
	var buf bytes.Buffer
	buf.WriteString("before")
	n := int64(0)
	o = try(func() (_ []byte, err error) { n, err = w.cdc.MarshalBinaryLengthPrefixedWriter(&buf, v); return })
	if o.failed() || buf.String() != "before"+string(want) || n != int64(len(want)) {
		t.Fatalf("the writer form wrote %x, n=%d, %v; want %x\n%v", buf.Bytes(), n, o, want, d)
	}
	k := pick(t, len(want)+3, "room")
	lw := &limWriter{left: k, err: errWrite, heals: pick(t, 2, "heals") == 1}
	o = try(func() (_ []byte, err error) { n, err = w.cdc.MarshalBinaryLengthPrefixedWriter(lw, v); return })
	if k >= len(want) {
		if o.failed() || n != int64(len(want)) || !bytes.Equal(lw.got, want) {
			t.Fatalf("writer with room for %d of %d bytes: n=%d %v\n%v", k, len(want), n, o, d)
		}
		return
	}
	if o.panik != nil || !errors.Is(o.err, errWrite) || n != int64(k) || !bytes.Equal(lw.got, want[:k]) {
		t.Fatalf("writer that fails after %d of %d bytes: got %x, n=%d, %v; want the writer's error and n=%d\n%v", k, len(want), lw.got, n, o, k, d)
	}
}

type msg struct {
	rt   reflect.Type
	rv   reflect.Value
	body []byte
}

func drawMsgs(t *rapid.T, w *World) (ms []msg, stream []byte) {
	for i, n := 0, 1+pick(t, 5, "nmsg"); i < n; i++ {
		var m msg
		if pick(t, 8, "long") == 7 {
			m.rt = tof([]byte{})
			l := pickFrom(t, []int{125, 126, 127, 128, 300, 5000, 16381, 16384, 70000}, "len")
			m.rv = reflect.ValueOf(drawBytes(t, l))
			m.body, _ = w.encTop(m.rv)
			if w.byT[m.rt] != nil && len(m.body) < 4 {
				panic("harness")
			}
		} else {
			m.rt, m.rv, m.body = drawEncodable(t, w)
		}
		ms = append(ms, m)
		stream = append(stream, frame(m.body)...)
	}
	return
}

func readMsg(cdc *amino.Codec, r io.Reader, rt reflect.Type, limit int64) (got reflect.Value, n int64, o outcome) {
	p := reflect.New(rt)
	o = try(func() (_ []byte, err error) {
		n, err = cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), limit)
		return
	})
	return p.Elem(), n, o
}

func checkStream(t *rapid.T) {
	w := drawWorld(t)
	ms, stream := drawMsgs(t, w)
	end := pickFrom(t, []error{io.EOF, errRead}, "end")
	r := drawReader(t, stream, end)
	ev.count(len(ms) > 1, stream, func() string { return fmt.Sprintf("%d messages, %d bytes, chunks %v", len(ms), len(stream), r.chunks) }, fmt.Sprintf("messages:%d", len(ms)))
	hist := ""
	for i, m := range ms {
		size := len(frame(m.body))
		limit := int64(0)
		switch pick(t, 7, "limit") {
		case 0, 1:
		case 2:
			limit = int64(size)
		case 3:
			limit = int64(size + 1)
		case 4:
			limit = math.MaxInt64
		default: // too small: error, and the body stays in the reader
			if size > 1 {
				limit = int64(1 + pick(t, size-1, "small"))
				if pick(t, 2, "just") == 0 {
					limit = int64(size - 1)
				}
			}
		}
		before := r.taken
		got, n, o := readMsg(w.cdc, r, m.rt, limit)
		used := r.taken - before
		hist += fmt.Sprintf("message %d (%v, %d bytes, limit %d): n=%d, took %d, %v\n", i, m.rt, size, limit, n, used, o)
		if o.panik != nil {
			t.Fatalf("panic\n%s", hist)
		}
		if n != int64(used) {
			t.Fatalf("reported %d bytes, took %d\n%s", n, used, hist)
		}
		if limit > 0 && int64(size) > limit {
			pre := size - len(m.body)
			if o.err == nil {
				t.Fatalf("a message over the limit was accepted\n%s", hist)
			}
			if used > pre || int64(used) > limit {
				t.Fatalf("read into a message over the limit: %d bytes, prefix %d\n%s", used, pre, hist)
			}
			ev.class("over-limit", 1)
			return
		}
		if o.err != nil {
			t.Fatalf("reading failed\n%s", hist)
		}
		if limit > 0 && int64(used) > limit {
			t.Fatalf("took %d bytes under a limit of %d\n%s", used, limit, hist)
		}
		if used != size {
			t.Fatalf("took %d bytes for a message of %d\n%s", used, size, hist)
		}
		if s := diff(w.normTop(m.rv, m.rt), got); s != "" {
			t.Fatalf("message changed at %s\n got %s\n want %s\n%s", s, dump(got), dump(m.rv), hist)
		}
	}
	_, n, o := readMsg(w.cdc, r, tof(Leaf{}), 0)
	if o.panik != nil || o.err == nil || n != 0 {
		t.Fatalf("at the end of the stream: n=%d %v\n%s", n, o, hist)
	}
	if end == io.EOF && !errors.Is(o.err, io.EOF) {
		t.Fatalf("at the end of the stream: %v instead of EOF\n%s", o, hist)
	}
}

func checkFaults(t *rapid.T) {
	w := drawWorld(t)
	rt, rv, body := drawEncodable(t, w)
	d := drawn{w, rt, rv}
	good := frame(body)
	end := pickFrom(t, []error{io.EOF, errRead, io.ErrUnexpectedEOF}, "end")
	limit := pickFrom(t, []int64{0, int64(len(good)), math.MaxInt64}, "limit")
	data := good
	how := ""
	minTaken, maxTaken := 0, len(good)
	switch pick(t, 7, "fault") {
	case 6: // a long prefix under a small limit
		how = "long prefix"
		pre := pick(t, 9, "pre") + 1
		data = bytes.Repeat([]byte{0x80 | byte(pick(t, 2, "bit"))}, pre)
		data = append(append(data, byte(pick(t, 2, "last"))), drawBytes(t, pick(t, 12, "junk"))...)
		limit = int64(1 + pick(t, pre, "small"))
		minTaken, maxTaken = 1, int(limit)
	case 0, 1: // ends early
		how = "ends early"
		data = good[:pick(t, len(good), "cut")]
		minTaken, maxTaken = len(data), len(data)
	case 2: // malformed length: never ends, or more than 64 bits
		how = "malformed length"
		data = append(bytes.Repeat([]byte{0xff}, 10+pick(t, 4, "more")), drawBytes(t, pick(t, 30, "junk"))...)
		if pick(t, 2, "ends") == 0 {
			data[9] = byte(2 + pick(t, 126, "tenth"))
		}
		minTaken, maxTaken = 1, 10
	case 3: // more claimed than there is
		how = "claims too much"
		claim := uint64(len(body)) + pickFrom(t, []uint64{1, 2, 100, 1 << 20, 1 << 30, 1 << 40, 1 << 62}, "claim")
		data = append(uvarint(claim), body...)
		maxTaken = len(data)
		if limit > 0 && limit < math.MaxInt64 {
			maxTaken = len(data) - len(body)
		}
	case 4: // 2^63 or more
		how = "claims 2^63"
		data = append(uvarint(1<<63+uint64(pick(t, 3, "plus"))), body...)
		maxTaken = len(data) - len(body)
	default: // body isn't an encoding of the type: all of it is consumed
		b2, _ := corrupt(t, body)
		if _, err := w.decTop(b2, rt); err == nil {
			return
		}
		how = "bad body"
		data = append(frame(b2), drawBytes(t, pick(t, 5, "after"))...)
		limit = 0
		minTaken, maxTaken = len(frame(b2)), len(frame(b2))
	}
	r := drawReader(t, data, end)
	ev.count(true, append([]byte(how), data...), func() string { return fmt.Sprintf("%s: %x, limit %d", how, clip(data), limit) }, "fault:"+how)
	lim := uint64(allocBase + len(data)*(allocPer+allocScale*int(w.weight(rt))))
	a := allocated()
	_, n, o := readMsg(w.cdc, r, rt, limit)
	if used := allocated() - a; used > lim && used > 1<<24 {
		t.Fatalf("%s: %d bytes allocated for %d bytes of input (%x)\n%v", how, used, len(data), clip(data), d)
	}
	if o.panik != nil || o.err == nil {
		t.Fatalf("%s: %v (input %x, limit %d)\n%v", how, o, clip(data), limit, d)
	}
	if n != int64(r.taken) {
		t.Fatalf("%s: reported %d bytes, took %d (input %x, limit %d, %v)\n%v", how, n, r.taken, clip(data), limit, o, d)
	}
	if r.taken < minTaken || r.taken > maxTaken {
		t.Fatalf("%s: took %d bytes, expected %d to %d (input %x, limit %d, %v)\n%v", how, r.taken, minTaken, maxTaken, clip(data), limit, o, d)
	}
	if how == "ends early" {
		switch {
		case end == errRead && !errors.Is(o.err, errRead):
			t.Fatalf("the reader's error was replaced: %v\n%v", o, d)
		case end == io.EOF && len(data) > 0 && o.err == io.EOF:
			t.Fatalf("a stream that ends inside a message reports a clean EOF (%x of %x)\n%v", data, clip(good), d)
		case end == io.EOF && len(data) == 0 && !errors.Is(o.err, io.EOF):
			t.Fatalf("an empty stream reports %v\n%v", o, d)
		}
	}
}

// checkSlice: the slice form takes one frame and nothing else.
func checkSlice(t *rapid.T) {
	w := drawWorld(t)
	rt, rv, body := drawEncodable(t, w)
	d := drawn{w, rt, rv}
	good := frame(body)
	dec := func(bz []byte) (reflect.Value, outcome) {
		p := reflect.New(rt)
		o := try(func() ([]byte, error) { return nil, w.cdc.UnmarshalBinaryLengthPrefixed(bz, p.Interface()) })
		return p.Elem(), o
	}
	got, o := dec(append([]byte(nil), good...))
	if o.failed() {
		t.Fatalf("decoding %x: %v\n%v", clip(good), o, d)
	}
	if s := diff(w.normTop(rv, rt), got); s != "" {
		t.Fatalf("decoding %x changed the value at %s\n%v", clip(good), s, d)
	}
	var bad []byte
	how := ""
	switch pick(t, 5, "how") {
	case 0: // another length
		how = "length"
		l := uint64(pickFrom(t, []int{0, 0, 1, len(body) - 1, len(body) + 1, len(body) / 2, len(body) * 2, 127, 128}, "claim"))
		if pick(t, 4, "huge") == 3 {
			l = pickFrom(t, []uint64{1 << 31, 1 << 32, 1 << 62, 1 << 63, math.MaxUint64, 1<<32 + uint64(len(body)), 1<<63 + uint64(len(body))}, "claim")
		}
		bad = append(uvarint(l), body...)
		if l == uint64(len(body)) {
			return
		}
	case 1: // more bytes
		how = "more"
		bad = append(append([]byte(nil), good...), drawBytes(t, 1+pick(t, 4, "n"))...)
	case 2: // a second frame
		how = "twice"
		bad = append(append([]byte(nil), good...), pickFrom(t, [][]byte{good, {0}}, "second")...)
	case 3: // fewer bytes
		how = "fewer"
		bad = good[:pick(t, len(good), "cut")]
	default: // malformed length
		how = "malformed"
		bad = append(bytes.Repeat([]byte{0xff}, 10+pick(t, 3, "more")), body...)
	}
	ev.count(true, append([]byte(how), bad...), func() string { return fmt.Sprintf("slice %s: %x", how, clip(bad)) }, "slice:"+how)
	if _, o = dec(bad); o.panik != nil || o.err == nil {
		t.Fatalf("%s: %x was accepted as one frame (a good one is %x): %v\n%v", how, clip(bad), clip(good), o, d)
	}
}

// TestC11: framing.
func TestC11(t *testing.T) {
	run(t, "writer", 15, checkWriter)
	run(t, "stream", 12, checkStream)
	run(t, "faults", 20, checkFaults)
	run(t, "slice", 12, checkSlice)
	run(t, "sizes", 0.03, checkSizedFrames)
	run(t, "shapes", 0.05, shapes(checkSizedFrames))
	once(t, "negative", func(t *testing.T) {
		for _, m := range []int64{-1, math.MinInt64} {
			r := &chunkReader{data: []byte{0}, end: io.EOF}
			if _, _, o := readMsg(amino.NewCodec(), r, tof(Leaf{}), m); !o.failed() {
				t.Fatalf("VERIF-VIOLATION a limit of %d was accepted", m)
			}
		}
	})
}

// ---------------------------------------------------------------- C12

type evo struct {
	old, new reflect.Type
	w, w2    *World
}

// toNew maps a type that uses old to the one that uses new, in drawn shapes.
func (e evo) mapType(rt reflect.Type, from, to reflect.Type) reflect.Type {
	if rt == from {
		return to
	}
	if rt.Name() != "" {
		return rt
	}
	switch rt.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(e.mapType(rt.Elem(), from, to))
	case reflect.Slice:
		return reflect.SliceOf(e.mapType(rt.Elem(), from, to))
	case reflect.Array:
		return reflect.ArrayOf(rt.Len(), e.mapType(rt.Elem(), from, to))
	case reflect.Map:
		return reflect.MapOf(rt.Key(), e.mapType(rt.Elem(), from, to))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			f.Type = e.mapType(f.Type, from, to)
			f.Index, f.Offset = nil, 0
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	return rt
}

// convert copies src, which uses from, to dst, which uses to.
func (e evo) convert(src, dst reflect.Value, from, to reflect.Type) {
	if src.Type() == from {
		for i := 0; i < from.NumField() && i < to.NumField(); i++ {
			if from.Field(i).PkgPath == "" {
				e.convert(src.Field(i), dst.Field(i), from, to)
			}
		}
		for i := from.NumField(); i < to.NumField(); i++ {
			if to.Field(i).PkgPath == "" {
				setAbsent(dst.Field(i))
			}
		}
		return
	}
	if src.Type() == dst.Type() && src.Type().Kind() == reflect.Struct {
		dst.Set(src) // unexported fields
	}
	switch src.Kind() {
	case reflect.Map:
		dst.Set(src)
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			e.convert(src.Elem(), dst.Elem(), from, to)
		}
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		v := src.Elem()
		x := reflect.New(e.mapType(v.Type(), from, to)).Elem()
		e.convert(v, x, from, to)
		dst.Set(x)
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		}
		for i := 0; i < src.Len(); i++ {
			e.convert(src.Index(i), dst.Index(i), from, to)
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			e.convert(src.Index(i), dst.Index(i), from, to)
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).PkgPath == "" {
				e.convert(src.Field(i), dst.Field(i), from, to)
			}
		}
	default:
		dst.Set(src)
	}
}

// drawEvo draws a struct type, an extended one, and codecs for each; registered
// tells whether it is registered as a concrete type.
func drawEvo(t *rapid.T, registered bool) evo {
	w := drawWorld(t)
	if registered && len(w.ifs) == 0 {
		for _, it := range ifaceTypes {
			w.add(regStep{i: &Iface{T: it}})
		}
	}
	c := tctx{w: w, depth: 2, noTop: true}
	n := pick(t, 5, "common")
	if chance(t, 6, "many") {
		n = 13 + pick(t, 4, "common")
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, drawField(t, c, i))
	}
	old := reflect.StructOf(fs)
	for i, m := 0, 1+pick(t, 3, "added"); i < m; i++ {
		f := drawField(t, c, n+i)
		if i == 0 && pick(t, 3, "listed") == 0 { // lists are the interesting ones
			f.PkgPath, f.Name = "", fmt.Sprintf("F%d", n+i)
			f.Tag = ""
			f.Type = pickFrom(t, []reflect.Type{tof([]Leaf{}), tof([]*Leaf{}), tof([]string{}), tof([][]byte{}), tof([]int32{}), tof([]time1{}), tof([2]Leaf{}), tof([2]string{}), tof([][]int8{}), tof([3]int16{})}, "lt")
		}
		fs = append(fs, f)
	}
	e := evo{old: old, new: reflect.StructOf(fs), w: w}
	e.w2 = w.clone()
	if registered {
		ptr := pick(t, 2, "ptr") == 1
		name := fmt.Sprintf("evo/%d", pick(t, 1000, "evoname"))
		e.w.add(regStep{c: newConc(e.old, ptr, name)})
		e.w2.byT, e.w2.concs = map[reflect.Type]*Conc{}, append([]*Conc{}, e.w2.concs...)
		for _, c := range e.w2.concs {
			e.w2.byT[c.T] = c
		}
		e.w2.ord = append([]regStep{}, e.w2.ord...)
		e.w2.add(regStep{c: newConc(e.new, ptr, name)})
	}
	return e
}

type time1 = RStruct

func (e evo) shape(t *rapid.T, registered bool) reflect.Type {
	rt := e.old
	if registered {
		rt = reflect.StructOf([]reflect.StructField{{Name: "X", Type: anyType}, {Name: "N", Type: tof(int8(0))}})
		switch pick(t, 4, "ifshape") {
		case 0:
			rt = e.old // top level, with prefix bytes
		case 1:
			rt = reflect.StructOf([]reflect.StructField{{Name: "L", Type: reflect.SliceOf(anyType)}, {Name: "A", Type: reflect.ArrayOf(2, anyType)}, {Name: "N", Type: tof(int8(0))}})
		}
	}
	for i, n := 0, pick(t, 3, "nesting"); i < n; i++ {
		et := rt
		switch pick(t, 6, "wrap") {
		case 1:
			et = reflect.PtrTo(rt)
		case 2:
			et = reflect.SliceOf(rt)
		case 3:
			et = reflect.SliceOf(reflect.PtrTo(rt))
		case 4:
			et = reflect.ArrayOf(1+pick(t, 2, "alen"), rt)
		case 5:
			et = reflect.PtrTo(reflect.SliceOf(rt))
		}
		fs := []reflect.StructField{{Name: "B", Type: pickFrom(t, []reflect.Type{tof(""), tof([]int16{}), tof([]Leaf{})}, "before")}, {Name: "X", Type: et}}
		if pick(t, 3, "after") > 0 {
			fs = append(fs, reflect.StructField{Name: "Z", Type: pickFrom(t, []reflect.Type{tof(int(0)), tof([]Leaf{}), tof(&Leaf{})}, "aft")})
		}
		rt = reflect.StructOf(fs)
	}
	if pick(t, 6, "toplist") == 5 && !registered {
		rt = reflect.SliceOf(rt)
	}
	return rt
}

func checkEvolution(t *rapid.T, registered bool) {
	e := drawEvo(t, registered)
	so := e.shape(t, registered)
	sn := e.mapType(so, e.old, e.new)
	from, to, wf, wt, sf, st := e.old, e.new, e.w, e.w2, so, sn
	back := pick(t, 2, "dir") == 1
	if back {
		from, to, wf, wt, sf, st = to, from, wt, wf, st, sf
	}
	v := newV(wf, false)
	v.compl = pick(t, 3, "full") > 0
	rv := drawValue(t, sf, v)
	if registered { // the concrete type must occur
		fillEvo(t, rv, v, wf.byT[from])
	}
	o := marshalBin(wf.cdc, rv.Interface())
	if o.failed() {
		t.Fatalf("encoding failed: %v\n%v", o, drawn{wf, sf, rv})
	}
	want := reflect.New(st).Elem()
	e.convert(wf.normTop(rv, sf), want, from, to)
	want = wt.normTop(want, st)
	got, d := unmarshalBin(wt.cdc, o.bz, st)
	dir := "old-to-new"
	if back {
		dir = "new-to-old"
	}
	ev.count(len(o.bz) > 2, append([]byte(st.String()), caseFP(sf, o.bz)...), func() string {
		return fmt.Sprintf("%s: %x written as %v, read as %v", dir, clip(o.bz), sf, st)
	}, dir, fmt.Sprintf("nested:%v", strings.Count(sf.String(), "struct {")-strings.Count(from.String(), "struct {")))
	if d.failed() {
		t.Fatalf("%s: decoding failed: %v\n bytes %x\n written as %v\n read as %v\n value %s", dir, d, clip(o.bz), sf, st, dump(rv))
	}
	if s := diff(want, wt.normTop(got, st)); s != "" {
		t.Fatalf("%s: changed at %s\n bytes %x\n written as %v\n read as %v\n got %s\n want %s", dir, s, clip(o.bz), sf, st, dump(got), dump(want))
	}
}

// fillEvo puts values of the registered struct into the interfaces of rv.
func fillEvo(t *rapid.T, rv reflect.Value, v vctx, c *Conc) {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.Type() != anyType || pick(t, 4, "keep") == 3 {
			return
		}
		x := reflect.New(c.T)
		fillValue(t, x.Elem(), v)
		if c.Ptr {
			rv.Set(x)
		} else {
			rv.Set(x.Elem())
		}
	case reflect.Ptr:
		if !rv.IsNil() && rv.Elem().Type() != c.T {
			fillEvo(t, rv.Elem(), v, c)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			fillEvo(t, rv.Index(i), v, c)
		}
	case reflect.Struct:
		if rv.Type() == c.T || rv.Type().Name() != "" {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			fillEvo(t, rv.Field(i), v, c)
		}
	}
}

// TestC12: structs with fields appended.
func TestC12(t *testing.T) {
	run(t, "nested", 20, func(t *rapid.T) { checkEvolution(t, false) })
	run(t, "interface", 10, func(t *rapid.T) { checkEvolution(t, true) })
	run(t, "sizes", 0.1, checkSizedEvolution)
	run(t, "shapes", 0.2, shapes(checkSizedEvolution))
}
