package harness

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"testing"
	"time"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// drawPair draws seconds and nanoseconds, often at an edge or outside.
func drawPair(t *rapid.T) (sec int64, ns int64) {
	switch pick(t, 6, "seckind") {
	case 0:
		sec = pickFrom(t, []int64{minSec, maxSec, maxSec + 1, minSec - 1, 0, -1, 1, math.MinInt64, math.MaxInt64}, "edge") + int64(pick(t, 7, "d")-3)
	case 1:
		sec = drawInt(t, 64)
	case 2:
		sec = rapid.Int64Range(minSec, maxSec).Draw(t, "sec")
	case 3:
		sec = rapid.Int64Range(-1<<34, 1<<34).Draw(t, "sec")
	case 4:
		sec = pickFrom(t, []int64{math.MaxInt32, math.MinInt32, math.MaxUint32, 1 << 41, -1 << 41, 951827696, -1, 253370764800, -62135596800}, "known") + int64(pick(t, 3, "d")-1)
	}
	switch pick(t, 5, "nskind") {
	case 0:
		ns = pickFrom(t, []int64{1, 999999999, 999999998, 500000000, 1000, 1000000, 100000000, 127, 128}, "ns")
	case 1, 2:
		ns = rapid.Int64Range(0, 999999999).Draw(t, "ns")
	}
	return
}

func inRange(sec int64) bool { return sec >= minSec && sec <= maxSec }

// drawInstant gives a time for a pair, in some zone, perhaps monotonic.
func drawInstant(t *rapid.T, sec, ns int64) time.Time {
	tm := time.Unix(sec, ns)
	switch pick(t, 4, "form") {
	case 0:
		return tm.UTC()
	case 1:
		return tm.In(pickFrom(t, zones, "zone"))
	case 2:
		if sec > 0 && sec < 1<<32 {
			now := time.Now()
			if m := now.Add(tm.Sub(now)); m.Unix() == sec && int64(m.Nanosecond()) == ns {
				return m
			}
		}
	}
	return tm
}

// timesIn lists the times of a value.
func timesIn(v reflect.Value, f func(v reflect.Value)) {
	switch {
	case v.Type() == timeType:
		f(v)
	case v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface:
		if !v.IsNil() {
			if v.Kind() == reflect.Interface {
				timesIn(addressable(v.Elem()), f)
				return
			}
			timesIn(v.Elem(), f)
		}
	case v.Kind() == reflect.Slice || v.Kind() == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			timesIn(v.Index(i), f)
		}
	case v.Kind() == reflect.Map:
		for _, k := range v.MapKeys() {
			timesIn(addressable(v.MapIndex(k)), f)
		}
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			timesIn(v.Field(i), f)
		}
	}
}

func timeWorld(t *rapid.T) (w *World, conc reflect.Type) {
	w = emptyWorld()
	w.add(regStep{i: &Iface{T: anyType, Always: pick(t, 3, "always") == 2}})
	w.add(regStep{c: newConc(timeType, pick(t, 2, "ptr") == 1, fmt.Sprintf("time/%d", pick(t, 100, "name")))})
	return w, w.concs[0].form()
}

// checkTimes: times at drawn positions; at most one is out of range.
func checkTimes(t *rapid.T, js bool) {
	w, conc := emptyWorld(), timeType
	iface := pick(t, 3, "iface") == 2
	if iface {
		w, conc = timeWorld(t)
	}
	rt := drawPos(t, timeType, js, iface)
	if pick(t, 6, "top") == 5 {
		rt = timeType
	}
	rv := reflect.New(rt).Elem()
	fillPos(t, rv, timeType, conc, func() reflect.Value {
		for {
			sec, ns := drawPair(t)
			if !inRange(sec) {
				sec = minSec + int64(uint64(sec)%uint64(maxSec-minSec+1))
			}
			return reflect.ValueOf(drawInstant(t, sec, ns))
		}
	})
	if topNil(rv) {
		return
	}
	// Take one time, and perhaps move it out of the range.
	var all []time.Time
	timesIn(rv, func(v reflect.Value) { all = append(all, getTime(v)) })
	bad := false
	var badSec int64
	if len(all) > 0 && pick(t, 3, "bad") == 2 {
		k, n := pick(t, len(all), "which"), 0
		timesIn(rv, func(v reflect.Value) {
			if n == k && v.CanSet() && v.CanAddr() {
				sec, ns := drawPair(t)
				if inRange(sec) {
					sec = pickFrom(t, []int64{maxSec + 1, minSec - 1, maxSec + 2, minSec - 2, math.MaxInt64, math.MinInt64, maxSec + 86400*400, minSec - 86400*400}, "out")
				}
				v.Set(reflect.ValueOf(drawInstant(t, sec, ns)))
			}
			n++
		})
		// Values inside interfaces and maps aren't reached; see what is there now.
		timesIn(rv, func(v reflect.Value) {
			if s := getTime(v).Unix(); !inRange(s) {
				bad, badSec = true, s
			}
		})
	}
	d := drawn{w, rt, rv}
	fp := dump(rv)
	ev.count(len(all) > 0, caseFP(rt, []byte(fp)), func() string { return d.String() }, fmt.Sprintf("bad:%v", bad), fmt.Sprintf("iface:%v", iface), fmt.Sprintf("times:%d", min(len(all), 5)))
	if js {
		o := marshalJSON(w.cdc, rv.Interface())
		// In JSON only years with more than four digits can't be written.
		if bad {
			y := time.Unix(badSec, 0).UTC().Year()
			if y < 0 || y > 9999 {
				if o.panik != nil || o.err == nil {
					t.Fatalf("a time in the year %d was encoded: %v\n%v", y, o, d)
				}
				return
			}
		}
		if o.failed() {
			t.Fatalf("encoding failed: %v\n%v", o, d)
		}
		got, do := unmarshalJSON(w.cdc, o.bz, rt)
		if do.failed() {
			t.Fatalf("decoding %s failed: %v\n%v", o.bz, do, d)
		}
		checkSameTimes(t, d, got, w.normTopJSON(rv, rt), o.bz)
		return
	}
	for form := 0; form < 3; form++ {
		o := encodeBy(w.cdc, form, asArg(t, rv))
		if bad {
			if o.panik != nil || o.err == nil {
				t.Fatalf("a time with %d seconds was encoded: %v\n%v", badSec, o, d)
			}
			continue
		}
		if o.failed() {
			t.Fatalf("encoding failed: %v\n%v", o, d)
		}
		if form > 0 {
			continue
		}
		want, err := w.encTop(rv)
		if err != nil || !bytes.Equal(want, o.bz) {
			t.Fatalf("encoded as %x, want %x (%v)\n%v", clip(o.bz), clip(want), err, d)
		}
		got, do := unmarshalBin(w.cdc, o.bz, rt)
		if do.failed() {
			t.Fatalf("decoding %x failed: %v\n%v", o.bz, do, d)
		}
		checkSameTimes(t, d, got, w.normTop(rv, rt), o.bz)
	}
}

func checkSameTimes(t *rapid.T, d drawn, got, want reflect.Value, bz []byte) {
	if s := diff(want, got); s != "" {
		t.Fatalf("the value decoded from %x differs at %s\n got %s\n want %s\n%v", clip(bz), s, dump(got), dump(want), d)
	}
	timesIn(got, func(v reflect.Value) {
		tm := getTime(v)
		if tm != time.Unix(tm.Unix(), int64(tm.Nanosecond())).UTC() {
			t.Fatalf("decoded %#v isn't a plain UTC time\n%v", tm, d)
		}
	})
}

// checkTimeWire: any pair of numbers on the wire, in any order or number.
func checkTimeWire(t *rapid.T) {
	var body []byte
	sec, ns := drawPair(t)
	u := uint64(ns)
	if pick(t, 4, "badns") == 3 {
		u = pickFrom(t, []uint64{1e9, 1e9 + 1, math.MaxUint32, 1 << 32, 1 << 31, math.MaxUint64, 1<<32 + 5, 1<<63 + 7, 1 << 62}, "bigns")
	}
	valid := pick(t, 4, "shape") > 0
	if valid {
		if sec != 0 || pick(t, 8, "zero") == 7 {
			body = append(append(body, key(1, wVarint)...), uvarint(uint64(sec))...)
		}
		if u != 0 || pick(t, 8, "zerons") == 7 {
			body = append(append(body, key(2, wVarint)...), uvarint(u)...)
		}
	} else {
		for i, n := 0, pick(t, 4, "nf"); i < n; i++ {
			k := key(uint64(pickFrom(t, []int{1, 2, 3, 0, 100}, "num")), pickFrom(t, []int{0, 1, 2, 5, 3, 7}, "wt"))
			body = append(append(body, k...), uvarint(pickFrom(t, []uint64{uint64(sec), u, 0, 8, 1}, "v"))...)
		}
		if pick(t, 2, "cut") == 1 && len(body) > 0 {
			body = body[:pick(t, len(body), "at")]
		}
	}
	ev.count(len(body) > 1, body, func() string { return fmt.Sprintf("sec %d ns %d: %x", sec, u, body) }, fmt.Sprintf("shape:%v", valid))
	type S struct {
		A int8
		T time.Time
		Z string
	}
	type L struct{ L []*time.Time }
	type P struct{ P *time.Time }
	in := func(pre []byte, num int, post []byte) []byte {
		return append(append(append(append([]byte{}, pre...), key(uint64(num), wBytes)...), wrap(body)...), post...)
	}
	w := emptyWorld()
	for _, c := range []struct {
		rt reflect.Type
		bz []byte
	}{
		{timeType, body},
		{reflect.PtrTo(timeType), body},
		{tof(S{}), in(nil, 2, append(key(3, wBytes), 1, 'x'))},
		{tof(S{}), in(append(key(1, wVarint), 2), 2, nil)},
		{tof([]time.Time{}), in(nil, 1, in(nil, 1, nil))},
		{tof([2]time.Time{}), in(in(nil, 1, nil), 1, nil)},
		{tof(L{}), in(nil, 1, append(key(1, wBytes), 0))},
		{tof(P{}), in(nil, 1, nil)},
	} {
		want, err := w.decTop(c.bz, c.rt)
		if valid && (err == nil) != (inRange(sec) && u <= 999999999) {
			panic(fmt.Sprint("reference: ", sec, u, err))
		}
		got, o := unmarshalBin(w.cdc, c.bz, c.rt)
		if o.panik != nil || o.failed() != (err != nil) {
			t.Fatalf("%x into %v: %v; want error: %v", c.bz, c.rt, o, err)
		}
		if err == nil {
			checkSameTimes(t, drawn{w, c.rt, want}, got, want, c.bz)
		}
	}
	// DecodeTime reads from the front.
	tm, n, err := amino.DecodeTime(body)
	want := reflect.New(timeType).Elem()
	var rn int
	rerr := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = r.(decErr)
			}
		}()
		rn = decTimeRef(body, want)
		return
	}()
	if valid && ((err == nil) != (rerr == nil) || err == nil && (n != rn || tm != getTime(want))) {
		t.Fatalf("DecodeTime(%x) = %v n=%d %v, want %v n=%d %v", body, tm, n, err, getTime(want), rn, rerr)
	}
	if err == nil && (tm.Location() != time.UTC || !inRange(tm.Unix()) || n > len(body)) {
		t.Fatalf("DecodeTime(%x) = %v n=%d", body, tm, n)
	}
}

// checkTimePrim: EncodeTime and DecodeTime.
func checkTimePrim(t *rapid.T) {
	sec, ns := drawPair(t)
	if e := timePrim(sec, ns, drawInstant(t, sec, ns), pick(t, 60, "room")); e != "" {
		t.Fatal(e)
	}
	fp := fmt.Sprint(sec, ns)
	ev.count(true, []byte(fp), func() string { return fp }, fmt.Sprintf("inrange:%v", inRange(sec)))
}

func timePrim(sec, ns int64, tm time.Time, room int) string {
	var b bytes.Buffer
	err := amino.EncodeTime(&b, tm)
	if !inRange(sec) {
		if err == nil {
			return fmt.Sprintf("EncodeTime of %d.%09d wrote %x", sec, ns, b.Bytes())
		}
		return ""
	}
	var want []byte
	if sec != 0 {
		want = append(key(1, wVarint), uvarint(uint64(sec))...)
	}
	if ns != 0 {
		want = append(append(want, key(2, wVarint)...), uvarint(uint64(ns))...)
	}
	if err != nil || !bytes.Equal(b.Bytes(), want) {
		return fmt.Sprintf("EncodeTime of %d.%09d (%v) wrote %x %v, want %x", sec, ns, tm, b.Bytes(), err, want)
	}
	got, n, err := amino.DecodeTime(want)
	if err != nil || n != len(want) || got != time.Unix(sec, ns).UTC() {
		return fmt.Sprintf("DecodeTime(%x) = %#v n=%d %v, want %v", want, got, n, err, time.Unix(sec, ns).UTC())
	}
	// What follows isn't read: any bytes after the nanoseconds, other fields
	// after the seconds.
	var tails [][]byte
	if sec != 0 || ns != 0 {
		for _, num := range []uint64{3, 4, 15, 16, 100000} {
			tails = append(tails, append(key(num, wVarint), uvarint(uint64(room)<<7)...), append(key(num, wBytes), 2, 8, 1),
				append(key(num, w4), 1, 2, 3, 4), append(key(num, w8), 1, 2, 3, 4, 5, 6, 7, 8), key(num, wVarint), key(num, 7))
		}
	}
	if ns != 0 {
		tails = append(tails, []byte{0xff}, []byte{0}, append(key(1, wVarint), 1), append(key(2, wVarint), 1), want)
	}
	for i := range tails {
		tail := tails[(i+room)%len(tails)]
		if i > 5 {
			break
		}
		in := append(append([]byte{}, want...), tail...)
		got, n, err := amino.DecodeTime(in)
		if err != nil || n != len(want) || got != time.Unix(sec, ns).UTC() {
			return fmt.Sprintf("DecodeTime(%x), with %x behind: %#v n=%d %v, want %v n=%d", in, tail, got, n, err, time.Unix(sec, ns).UTC(), len(want))
		}
	}
	if len(want) > 0 {
		k := room % len(want)
		lw := &limWriter{left: k, err: errWrite19, heals: room/len(want)%2 == 1}
		if err := amino.EncodeTime(lw, tm); !errors.Is(err, errWrite19) {
			return fmt.Sprintf("EncodeTime of %v to a writer that fails after %d of %d bytes: %v", tm, k, len(want), err)
		}
	}
	return ""
}

// checkTimeEdges enumerates the neighbourhood of the limits and some structure.
func checkTimeEdges(t *testing.T) {
	n := 0
	for _, base := range []int64{minSec, maxSec, 0, math.MaxInt32, math.MinInt32, math.MaxUint32, -86400 * 365 * 100} {
		for d := int64(-200); d <= 200; d++ {
			for _, ns := range []int64{0, 1, 999999999} {
				for _, z := range []*time.Location{time.UTC, zones[len(zones)-1]} {
					if e := timePrim(base+d, ns, time.Unix(base+d, ns).In(z), int(d+200)); e != "" {
						t.Fatal("VERIF-VIOLATION " + e)
					}
					n++
				}
			}
		}
	}
	// JSON and binary of the first instant of every year and of the last.
	cdc := amino.NewCodec()
	type S struct{ T time.Time }
	for y := 1; y <= 9999; y++ {
		for _, tm := range []time.Time{time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(y, 2, 29, 12, 30, 1, y*100000, time.UTC)} {
			o := marshalJSON(cdc, S{tm})
			want := fmt.Sprintf(`{"T":"%04d-%02d-%02dT%02d:%02d:%02d`, y, tm.Month(), tm.Day(), tm.Hour(), tm.Minute(), tm.Second())
			if f := fmt.Sprintf("%09d", tm.Nanosecond()); tm.Nanosecond() != 0 {
				for f[len(f)-1] == '0' {
					f = f[:len(f)-1]
				}
				want += "." + f
			}
			want += `Z"}`
			if o.failed() || string(o.bz) != want {
				t.Fatalf("VERIF-VIOLATION JSON of %v: %v %s, want %s", tm, o, o.bz, want)
			}
			var s S
			if err := cdc.UnmarshalJSON(o.bz, &s); err != nil || s.T != tm {
				t.Fatalf("VERIF-VIOLATION decoding %s: %v %v", o.bz, s.T, err)
			}
			var b S
			ob := marshalBin(cdc, S{tm})
			if err := cdc.UnmarshalBinaryBare(ob.bz, &b); ob.failed() || err != nil || b.T != tm {
				t.Fatalf("VERIF-VIOLATION binary round trip of %v: %x %v %v", tm, ob.bz, b.T, err)
			}
			n++
		}
		if y%500 == 0 {
			tick()
		}
	}
	ev.count(true, []byte("edges"), func() string { return "" })
	ev.class("enumerated", int64(n))
}

// checkTimeText: which JSON texts are times, and which time they are.
func checkTimeText(t *rapid.T) {
	num := func(name string, n int, lo, hi int) (string, int) {
		v := lo + pick(t, hi-lo+1, name)
		if pick(t, 12, "out") == 0 {
			v = pickFrom(t, []int{lo - 1, hi + 1, hi + 2, 99}, "bad")
		}
		if v < 0 {
			v = 0
		}
		s := fmt.Sprintf("%0*d", n, v)
		if pick(t, 40, "short") == 0 {
			s = fmt.Sprint(v)
		}
		return s, v
	}
	year, y := num("y", 4, 1, 9999)
	if pick(t, 3, "near") == 0 {
		y = pickFrom(t, []int{1, 1969, 1970, 2000, 1900, 2023, 2024, 9999, 0, 10000}, "yv")
		year = fmt.Sprintf("%04d", y)
	}
	month, mo := num("mo", 2, 1, 12)
	day, dd := num("d", 2, 1, 31)
	hour, h := num("h", 2, 0, 23)
	min, mi := num("mi", 2, 0, 59)
	sec, s := num("s", 2, 0, 59)
	frac, ns := "", 0
	if pick(t, 2, "frac") == 1 {
		frac = "."
		for i, n := 0, pick(t, 12, "digits"); i < n; i++ {
			frac += string(rune('0' + pick(t, 10, "digit")))
		}
		if pick(t, 20, "comma") == 0 {
			frac = "," + frac[1:]
		}
	}
	zone := "Z"
	if pick(t, 3, "zone") == 0 {
		zone = pickFrom(t, []string{"z", "+00:00", "-00:00", "+0000", "+00", "+01:00", "-23:59", "", " Z", "ZZ", "UTC", "+00:00Z", "+01:00Z", "GMT", " UTC", "Z ", "0Z", ":Z"}, "z")
	}
	sep := func(d string) string {
		if pick(t, 40, "sep") == 0 {
			return pickFrom(t, []string{"", " ", "-", ":", "/", "t", "T", "_", ".", "--"}, "sepv")
		}
		return d
	}
	text := year + sep("-") + month + sep("-") + day + sep("T") + hour + sep(":") + min + sep(":") + sec + frac + zone
	if pick(t, 30, "sign") == 0 {
		text = pickFrom(t, []string{"-", "+", " ", "0"}, "lead") + text
	}
	bz := []byte(`"` + text + `"`)
	if timeTextRE.MatchString(text) { // The pieces may have met to form others.
		fmt.Sscanf(text, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &mo, &dd, &h, &mi, &s)
		ns = 0
		for i := 0; i < 9; i++ {
			ns *= 10
			if f := text[19 : len(text)-1]; i+1 < len(f) {
				ns += int(f[i+1] - '0')
			}
		}
	}
	dim := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		dim[1] = 29
	}
	ok := timeTextRE.MatchString(text) && mo >= 1 && mo <= 12 && dd >= 1 && dd <= dim[(mo+11)%12] && h <= 23 && mi <= 59 && s <= 59
	var want time.Time
	if ok {
		// Days since 1970 by counting.
		days := 0
		for i := 1; i < mo; i++ {
			days += dim[i-1]
		}
		p := y - 1
		days += 365*p + p/4 - p/100 + p/400 - 719162 + dd - 1
		if y == 0 {
			days = -719528 + dd - 1
			for i := 1; i < mo; i++ {
				days += dim[i-1]
			}
		}
		want = time.Unix(int64(days)*86400+int64(h*3600+mi*60+s), int64(ns)).UTC()
	}
	if lenientTimeRE.MatchString(text) && !ok {
		return // Whether these are accepted is up to Go's time package.
	}
	ev.count(true, bz, func() string { return text }, fmt.Sprintf("text:%v", ok))
	type S struct{ T time.Time }
	type P struct{ T []*time.Time }
	cdc := amino.NewCodec()
	var a time.Time
	var b S
	var c P
	for i, f := range []func() error{
		func() error { return cdc.UnmarshalJSON(bz, &a) },
		func() error { return cdc.UnmarshalJSON([]byte(`{"T":`+string(bz)+`}`), &b) },
		func() error { return cdc.UnmarshalJSON([]byte(`{"T":[`+string(bz)+`]}`), &c) },
	} {
		o := try(func() ([]byte, error) { return nil, f() })
		if o.panik != nil || (o.err == nil) != ok {
			t.Fatalf("the time %s: %v, expected acceptance: %v (place %d)", bz, o, ok, i)
		}
	}
	if ok && (!a.Equal(want) || !b.T.Equal(want) || !c.T[0].Equal(want)) {
		t.Fatalf("the time %s was decoded as %v, %v, %v; want %v", bz, a, b.T, c.T[0], want)
	}
}

var timeTextRE = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}([.][0-9]+)?Z$`)

var lenientTimeRE = regexp.MustCompile(`T[0-9]:|,`)

func TestC21(t *testing.T) {
	if !replay && shard == 0 {
		once(t, "edges", checkTimeEdges)
	}
	run(t, "binary", 20, func(t *rapid.T) { checkTimes(t, false) })
	run(t, "json", 10, func(t *rapid.T) { checkTimes(t, true) })
	run(t, "text", 20, checkTimeText)
	run(t, "wire", 20, checkTimeWire)
	run(t, "primitive", 20, checkTimePrim)
}
