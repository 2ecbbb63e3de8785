package harness

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// conOp is one call on the shared codec and what it must return.
type conOp struct {
	kind  string
	rt    reflect.Type
	arg   interface{}
	bz    []byte
	fails bool // an error or a panic is expected
	want  []byte
	wantV reflect.Value
}

func (o *conOp) String() string {
	return fmt.Sprintf("%s of %v (input %x, must fail: %v)", o.kind, o.rt, clip(o.bz), o.fails)
}

// eval runs the operation on a codec (nil: the package-level functions).
func (o *conOp) eval(cdc *amino.Codec) (out outcome, v reflect.Value) {
	dec := func(f func(p interface{}) error) {
		p := reflect.New(o.rt)
		out = try(func() ([]byte, error) { return nil, f(p.Interface()) })
		v = p.Elem()
	}
	enc := func(f func(x interface{}) ([]byte, error)) {
		out = try(func() ([]byte, error) { return f(o.arg) })
	}
	if cdc == nil {
		switch o.kind {
		case "encode":
			enc(amino.MarshalBinaryBare)
		case "encode-json":
			enc(amino.MarshalJSON)
		case "encode-prefixed":
			enc(amino.MarshalBinaryLengthPrefixed)
		case "decode":
			dec(func(p interface{}) error { return amino.UnmarshalBinaryBare(o.bz, p) })
		case "decode-json":
			dec(func(p interface{}) error { return amino.UnmarshalJSON(o.bz, p) })
		case "decode-prefixed":
			dec(func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(o.bz, p) })
		default:
			panic(o.kind)
		}
		return
	}
	switch o.kind {
	case "encode":
		enc(cdc.MarshalBinaryBare)
	case "encode-json":
		enc(cdc.MarshalJSON)
	case "encode-prefixed":
		enc(cdc.MarshalBinaryLengthPrefixed)
	case "decode":
		dec(func(p interface{}) error { return cdc.UnmarshalBinaryBare(o.bz, p) })
	case "decode-json":
		dec(func(p interface{}) error { return cdc.UnmarshalJSON(o.bz, p) })
	case "decode-prefixed":
		dec(func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(o.bz, p) })
	case "print":
		out = try(func() ([]byte, error) {
			var b bytes.Buffer
			err := cdc.PrintTypes(&b)
			return b.Bytes(), err
		})
	case "copy":
		out = try(func() ([]byte, error) { amino.DeepCopy(o.arg); return nil, nil })
	default:
		panic(o.kind)
	}
	return
}

// check compares an outcome with the expectation.
func (o *conOp) check(out outcome, v reflect.Value) string {
	if out.failed() != o.fails {
		return fmt.Sprintf("%v: %v", o, out)
	}
	if o.fails {
		return ""
	}
	if o.want != nil && !bytes.Equal(o.want, out.bz) {
		return fmt.Sprintf("%v: returned %x, alone %x", o, clip(out.bz), clip(o.want))
	}
	if o.wantV.IsValid() {
		if s := diff(o.wantV, v); s != "" {
			return fmt.Sprintf("%v: differs from the call alone at %s", o, s)
		}
	}
	return ""
}

// drawOps draws operations and computes, on a codec of its own, what they return.
func drawOps(t *rapid.T, w *World, n int, global bool) (ops []*conOp) {
	alone := w.fresh(nil)
	if global {
		alone = amino.NewCodec().Seal()
	}
	add := func(o *conOp) {
		out, v := o.eval(alone)
		o.fails = out.failed()
		if !o.fails {
			o.want = append([]byte{}, out.bz...)
			o.wantV = v
		}
		ops = append(ops, o)
	}
	for len(ops) < n {
		if !global && chance(t, 8, "print") {
			add(&conOp{kind: "print"})
			continue
		}
		rt := drawTop(t, tctx{w: w, depth: 2})
		if len(w.concs) > 0 && pick(t, 3, "conc") == 0 {
			rt = pickFrom(t, w.concs, "c").T
			if pick(t, 2, "wrapped") == 0 {
				rt = pickFrom(t, []reflect.Type{tof(IfOne{}), tof(IfWrap{}), tof(IfLists{})}, "ifw")
			}
		}
		if derefT(rt).Kind() == reflect.Interface {
			continue
		}
		rv := drawValue(t, rt, newV(w, true))
		if nodesOf(rv, 30000) > 30000 { // slow under the race detector
			continue
		}
		arg := rv.Interface()
		if chance(t, 12, "unsupported") {
			arg = pickFrom(t, []interface{}{make(chan int), func() {}, struct{ F float64 }{1.5}, (*Leaf)(nil), struct{ X INone }{}, map[int]int{1: 2}, struct{ A [][][][]int }{}, complex(1, 2)}, "uv")
			rt = reflect.TypeOf(arg)
		}
		for _, k := range []string{"encode", "encode-json", "encode-prefixed", "decode", "decode-json", "decode-prefixed", "copy"} {
			if pick(t, 2, "use") == 0 || k == "copy" && global {
				continue
			}
			o := &conOp{kind: k, rt: rt, arg: arg}
			switch k {
			case "decode":
				o.bz = marshalBin(alone, arg).bz
			case "decode-json":
				o.bz = marshalJSON(alone, arg).bz
			case "decode-prefixed":
				o.bz = frame(marshalBin(alone, arg).bz)
			}
			if o.bz != nil && chance(t, 5, "bad") {
				o.bz, _ = corrupt(t, o.bz)
			}
			add(o)
		}
	}
	return
}

func checkConcurrent(t *rapid.T, global bool) {
	w := emptyWorld()
	if !global {
		w = richWorld(t)
	}
	ops := drawOps(t, w, 6+pick(t, 10, "nops"), global)
	var shared *amino.Codec
	if !global {
		shared = w.fresh(nil)
		if pick(t, 3, "sealed") == 0 {
			shared.Seal()
		}
	}
	g := 2 + pick(t, 5, "goroutines")
	rounds := 1 + pick(t, 2, "rounds")
	// Every goroutine has its own order; half of the time all start alike, so
	// that the first uses of a type coincide.
	plans := make([][]*conOp, g)
	for i := range plans {
		p := seq(len(ops))
		if pick(t, 2, "shuffle") == 1 {
			p = rapid.Permutation(p).Draw(t, "plan")
		}
		for r := 0; r < rounds; r++ {
			for _, k := range p {
				plans[i] = append(plans[i], ops[k])
			}
		}
	}
	ev.count(true, []byte(fmt.Sprintf("%v %v", ops, plans)), func() string {
		return fmt.Sprintf("%d goroutines, %d operations each: %v", g, len(plans[0]), clipStr(fmt.Sprint(ops), 500))
	}, fmt.Sprintf("goroutines:%d", g), fmt.Sprintf("global:%v", global))
	var wg sync.WaitGroup
	start := make(chan struct{})
	fails := make([]string, g)
	for i := range plans {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k, o := range plans[i] {
				out, v := o.eval(shared)
				if s := o.check(out, v); s != "" {
					fails[i] = fmt.Sprintf("goroutine %d, call %d: %s", i, k, s)
					return
				}
				if k%4 == 3 {
					runtime.Gosched()
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, s := range fails {
		if s != "" {
			t.Fatalf("%s\n%v", s, w)
		}
	}
}

// nodesOf counts the values in rv, byte lists as one, up to about max.
func nodesOf(rv reflect.Value, max int) int {
	n := 1
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			n += nodesOf(rv.Elem(), max-n)
		}
	case reflect.Slice, reflect.Array:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return n + rv.Len()/1000
		}
		for i := 0; i < rv.Len() && n <= max; i++ {
			n += nodesOf(rv.Index(i), max-n)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField() && n <= max; i++ {
			n += nodesOf(rv.Field(i), max-n)
		}
	}
	return n
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// nestCall is what the methods, readers and writers below do when the codec
// calls them: a call on the same codec. It is set only while one case runs.
var nestCall func(where string)

func duringCall(where string) {
	if f := nestCall; f != nil {
		f(where)
	}
}

// NestRepr has a representation, NestJSON JSON methods, and NestCopy a copying
// method; all use the codec that is calling them.
type NestRepr struct{ v int64 }

func (n NestRepr) MarshalAmino() (int64, error) { duringCall("MarshalAmino"); return n.v, nil }
func (n *NestRepr) UnmarshalAmino(v int64) error {
	duringCall("UnmarshalAmino")
	n.v = v
	return nil
}

type NestJSON struct{ V int64 }

func (n NestJSON) MarshalJSON() ([]byte, error) {
	duringCall("MarshalJSON")
	return []byte(fmt.Sprintf("[%d]", n.V)), nil
}

func (n *NestJSON) UnmarshalJSON(b []byte) error {
	duringCall("UnmarshalJSON")
	_, err := fmt.Sscanf(string(b), "[%d]", &n.V)
	return err
}

type NestCopy struct{ V []int64 }

func (n NestCopy) DeepCopy() NestCopy {
	duringCall("DeepCopy")
	return NestCopy{append([]int64{}, n.V...)}
}

type nestWriter struct{ b bytes.Buffer }

func (w *nestWriter) Write(b []byte) (int, error) { duringCall("Write"); return w.b.Write(b) }

type nestReader struct{ b []byte }

func (r *nestReader) Read(b []byte) (int, error) {
	duringCall("Read")
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.b)
	if n > 3 {
		n = 3
	}
	r.b = r.b[n:]
	return n, nil
}

const nestDeadline = 20 * time.Second

// checkNested calls the codec from what the codec calls: methods of the value,
// a reader, a writer; in the same goroutine or in one that it waits for.
func checkNested(t *rapid.T) {
	w := richWorld(t)
	ops := drawOps(t, w, 3+pick(t, 6, "nops"), false)
	alone := w.fresh(nil)
	// The outer value: the three types around a drawn one.
	it := drawTop(t, tctx{w: w, depth: 1})
	if derefT(it).Kind() == reflect.Interface {
		it = tof(Leaf{})
	}
	shape := func(x reflect.Type) reflect.Type {
		switch pick(t, 4, "shape") {
		case 1:
			return reflect.PtrTo(x)
		case 2:
			return reflect.SliceOf(x)
		case 3:
			return reflect.ArrayOf(2, x)
		}
		return x
	}
	fs := []reflect.StructField{{Name: "R", Type: shape(tof(NestRepr{}))}, {Name: "J", Type: shape(tof(NestJSON{}))}, {Name: "C", Type: shape(tof(NestCopy{}))}, {Name: "X", Type: it}}
	rt := reflect.StructOf(fs)
	var fill func(rv reflect.Value)
	fill = func(rv reflect.Value) {
		switch rv.Kind() {
		case reflect.Ptr:
			rv.Set(reflect.New(rv.Type().Elem()))
			fill(rv.Elem())
		case reflect.Slice:
			rv.Set(reflect.MakeSlice(rv.Type(), 1+pick(t, 2, "n"), 2))
			fallthrough
		case reflect.Array:
			for i := 0; i < rv.Len(); i++ {
				fill(rv.Index(i))
			}
		default:
			n := 1 + int64(pick(t, 300, "v"))
			switch p := rv.Addr().Interface().(type) {
			case *NestRepr:
				p.v = n
			case *NestJSON:
				p.V = n
			case *NestCopy:
				p.V = []int64{n}
			}
		}
	}
	rv := reflect.New(rt).Elem()
	for i := 0; i < 3; i++ {
		fill(rv.Field(i))
	}
	rv.Field(3).Set(drawValue(t, it, newV(w, true)))
	arg := rv.Interface()
	type call struct {
		name string
		f    func(cdc *amino.Codec) ([]byte, interface{}, error)
	}
	bin, js := marshalBin(alone, arg), marshalJSON(alone, arg)
	dec := func(f func(p interface{}) error) ([]byte, interface{}, error) {
		p := reflect.New(rt)
		err := f(p.Interface())
		return nil, p.Elem().Interface(), err
	}
	calls := []call{
		{"MarshalBinaryBare", func(c *amino.Codec) ([]byte, interface{}, error) {
			b, err := c.MarshalBinaryBare(arg)
			return b, nil, err
		}},
		{"MarshalJSON", func(c *amino.Codec) ([]byte, interface{}, error) { b, err := c.MarshalJSON(arg); return b, nil, err }},
		{"MarshalBinaryLengthPrefixedWriter", func(c *amino.Codec) ([]byte, interface{}, error) {
			var w nestWriter
			_, err := c.MarshalBinaryLengthPrefixedWriter(&w, arg)
			return w.b.Bytes(), nil, err
		}},
		{"PrintTypes", func(c *amino.Codec) ([]byte, interface{}, error) {
			var w nestWriter
			err := c.PrintTypes(&w)
			return w.b.Bytes(), nil, err
		}},
		{"UnmarshalBinaryBare", func(c *amino.Codec) ([]byte, interface{}, error) {
			return dec(func(p interface{}) error { return c.UnmarshalBinaryBare(bin.bz, p) })
		}},
		{"UnmarshalJSON", func(c *amino.Codec) ([]byte, interface{}, error) {
			return dec(func(p interface{}) error { return c.UnmarshalJSON(js.bz, p) })
		}},
		{"UnmarshalBinaryLengthPrefixedReader", func(c *amino.Codec) ([]byte, interface{}, error) {
			return dec(func(p interface{}) error {
				_, err := c.UnmarshalBinaryLengthPrefixedReader(&nestReader{frame(bin.bz)}, p, 0)
				return err
			})
		}},
		{"DeepCopy", func(c *amino.Codec) ([]byte, interface{}, error) { return nil, amino.DeepCopy(arg), nil }},
	}
	cl := pickFrom(t, calls, "call")
	eval := func(c *amino.Codec) (o outcome, v interface{}) {
		o = try(func() ([]byte, error) {
			b, x, err := cl.f(c)
			v = x
			return b, err
		})
		return
	}
	nestCall = nil
	wantO, wantV := eval(alone)
	shared := w.fresh(nil)
	if pick(t, 3, "sealed") == 0 {
		shared.Seal()
	}
	other := pick(t, 2, "other goroutine") == 1
	var fail string
	var wheres []string
	k, busy := 0, false
	type result struct {
		o outcome
		v interface{}
	}
	done := make(chan result, 1)
	go func() {
		nestCall = func(where string) {
			if busy || k >= 40 {
				return
			}
			busy = true
			o := ops[k%len(ops)]
			k++
			wheres = append(wheres, where)
			one := func() {
				out, v := o.eval(shared)
				if s := o.check(out, v); s != "" && fail == "" {
					fail = fmt.Sprintf("in %s called by %s: %s", where, cl.name, s)
				}
			}
			if other {
				ch := make(chan struct{})
				go func() { defer close(ch); one() }()
				<-ch
			} else {
				one()
			}
			busy = false
		}
		var r result
		r.o, r.v = eval(shared)
		nestCall = nil
		done <- r
	}()
	select {
	case r := <-done:
		ev.count(k > 0, []byte(fmt.Sprintf("%s %v %x %v", cl.name, rt, bin.bz, ops)), func() string {
			return fmt.Sprintf("%s of %v, calling the codec %d times from %v", cl.name, rt, k, wheres)
		}, "nested:"+cl.name, fmt.Sprintf("calls-within:%v", k > 0))
		if fail != "" {
			t.Fatalf("%s\n%v", fail, w)
		}
		if r.o.failed() != wantO.failed() || !bytes.Equal(r.o.bz, wantO.bz) {
			t.Fatalf("%s returns %v when what it calls uses the codec, %v otherwise\n%v", cl.name, r.o, wantO, w)
		}
		if wantV != nil && !wantO.failed() {
			if s := diff(reflect.ValueOf(wantV), reflect.ValueOf(r.v)); s != "" {
				t.Fatalf("%s: differs at %s when what it calls uses the codec\n%v", cl.name, s, w)
			}
		}
	case <-time.After(nestDeadline):
		t.Fatalf("%s hangs when what it calls uses the codec (other goroutine: %v)\n%v", cl.name, other, w)
	}
}

// TestC18 is meant for a build with the race detector.
func TestC18(t *testing.T) {
	run(t, "nested", 2, checkNested)
	run(t, "register", 2, checkRegistering)
	run(t, "codec", 4, func(t *rapid.T) { checkConcurrent(t, false) })
	run(t, "package", 1.5, func(t *rapid.T) { checkConcurrent(t, true) })
}
