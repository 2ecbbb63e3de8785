package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// Interfaces in every position.
type (
	IfIn struct {
		Z IA
		N int8
	}
	IfWrap struct {
		A  IA
		B  IB
		L  []IA
		M  []IB
		R  [2]Any
		AB IAB
		S  IfIn
		P  *IfIn
		SS []IfIn
		PP []*IfIn
		LL []IAB
		X  int32
	}
	IfWrapJ struct {
		IfWrap
		M1 map[string]IA
		M2 map[string][]Any
		O  IB    `json:"o,omitempty"`
		LO []Any `json:",omitempty"`
	}
	IfOne struct {
		A  IA
		B  IB
		X  Any
		AB IAB
	}
	IfLists struct {
		A  []IA
		B  []IB
		X  []Any
		AB []IAB
	}
)

// richWorld registers many concretes and all interfaces.
func richWorld(t *rapid.T) *World {
	w := emptyWorld()
	n := 4 + pick(t, 12, "nconc")
	perm := rapid.Permutation(concreteTypes).Draw(t, "concretes")
	names, collide := drawNames(t, n)
	var steps []regStep
	for i, ct := range perm[:n] {
		ptr := pick(t, 3, "ptr") == 0 || onlyPtr[ct] && pick(t, 4, "vptr") > 0
		steps = append(steps, regStep{c: newConc(ct, ptr, names[i])})
	}
	for _, it := range ifaceTypes {
		ifc := &Iface{T: it, Always: pick(t, 4, "always") == 3}
		if collide || pick(t, 4, "prio") == 3 {
			ifc.Priority = names
		}
		steps = append(steps, regStep{i: ifc})
	}
	for _, k := range rapid.Permutation(seq(len(steps))).Draw(t, "regorder") {
		w.add(steps[k])
	}
	return w
}

func checkIdentity(t *rapid.T) {
	w := richWorld(t)
	rt := pickFrom(t, []reflect.Type{tof(IfWrap{}), tof(IfOne{}), tof(IfLists{}), tof(CNested{}), tof([]IfOne{})}, "rt")
	v := newV(w, true)
	v.compl = pick(t, 2, "compl") == 1
	b := 120
	v.budget = &b
	d := drawn{w, rt, drawValue(t, rt, v)}
	want, err := w.encTop(d.rv)
	if err != nil {
		t.Fatalf("reference: %v\n%v", err, d)
	}
	o := marshalBin(w.cdc, d.rv.Interface())
	ev.count(len(want) >= 6, caseFP(rt, want), func() string { return fmt.Sprintf("%v = %x", d, want) }, ifClasses(w)...)
	if o.failed() || !bytes.Equal(o.bz, want) {
		t.Fatalf("encoding is\n %v, want\n %x\n%v", o, want, d)
	}
	cdc := w.cdc
	if pick(t, 2, "fresh") == 1 {
		cdc = w.fresh(nil)
	}
	got, do := unmarshalBin(cdc, o.bz, rt)
	if do.failed() {
		t.Fatalf("decoding %x: %v\n%v", o.bz, do, d)
	}
	if s := diff(w.normTop(d.rv, rt), got); s != "" {
		t.Fatalf("decoded value differs at %s\n got %s\n%v", s, dump(got), d)
	}
	// JSON, with maps of interfaces as well.
	if rt == tof(IfWrap{}) {
		rt = tof(IfWrapJ{})
		jv := reflect.New(rt).Elem()
		jv.Field(0).Set(d.rv)
		for i := 1; i < rt.NumField(); i++ {
			fillValue(t, jv.Field(i), v)
		}
		d.rt, d.rv = rt, jv
	}
	n, err := w.encTopJSON(d.rv)
	if err != nil {
		t.Fatalf("reference: %v\n%v", err, d)
	}
	jo := marshalJSON(w.cdc, d.rv.Interface())
	if jo.failed() {
		t.Fatalf("JSON encoding: %v\n%v", jo, d)
	}
	if m, ok := parseJSON(jo.bz); !ok || !n.sameAs(m) {
		t.Fatalf("JSON is\n %s, want\n %s\n%v", jo.bz, n.bytes(), d)
	}
	jgot, jdo := unmarshalJSON(cdc, jo.bz, rt)
	if jdo.failed() {
		t.Fatalf("decoding %s: %v\n%v", jo.bz, jdo, d)
	}
	if s := diff(w.normTopJSON(d.rv, rt), jgot); s != "" {
		t.Fatalf("value decoded from JSON differs at %s\n %s\n got %s\n%v", s, jo.bz, dump(jgot), d)
	}
}

func ifClasses(w *World) (cs []string) {
	seen := map[[4]byte]bool{}
	for _, c := range w.concs {
		if seen[c.Prefix] {
			cs = append(cs, "colliding-prefix")
			break
		}
		seen[c.Prefix] = true
	}
	for _, i := range w.ifs {
		if i.Always {
			return append(cs, "always-disambiguate")
		}
	}
	return
}

// checkTop: a registered value at the top level, decoded into its own type and
// into interface variables.
func checkTopConcrete(t *rapid.T) {
	w := richWorld(t)
	c := pickFrom(t, w.concs, "c")
	rv := drawValue(t, c.T, newV(w, true))
	d := drawn{w, c.T, rv}
	want, err := w.encTop(rv)
	if err != nil {
		t.Fatalf("reference: %v", err)
	}
	o := marshalBin(w.cdc, asArg(t, rv))
	if o.failed() || !bytes.Equal(o.bz, want) || !bytes.HasPrefix(o.bz, c.Prefix[:]) {
		t.Fatalf("top-level encoding is %v, want %x (prefix %x)\n%v", o, want, c.Prefix, d)
	}
	// The rest is what an unregistered codec writes.
	plain := w.clone()
	plain.cdc = amino.NewCodec()
	for _, s := range w.ord {
		if s.c != c {
			s.apply(plain.cdc)
		}
	}
	if c.T != tof(CNested{}) { // whose contents might need other disambiguation
		p := marshalBin(plain.cdc, rv.Interface())
		if p.failed() || !bytes.Equal(p.bz, want[4:]) {
			t.Fatalf("unregistered: %v, registered: %x\n%v", p, want, d)
		}
	}
	ev.count(len(want) > 4, caseFP(c.T, want), func() string { return fmt.Sprintf("%v = %x", d, want) }, ifClasses(w)...)
	for _, it := range append([]reflect.Type{c.T, reflect.PtrTo(c.T)}, ifaceTypes...) {
		ref, rerr := w.decTop(want, it)
		got, do := unmarshalBin(w.cdc, want, it)
		if (rerr != nil) != do.failed() || do.panik != nil {
			t.Fatalf("decoding %x into %v: %v, reference: %v\n%v", want, it, do, rerr, d)
		}
		if rerr != nil {
			continue
		}
		if s := diff(ref, got); s != "" {
			t.Fatalf("decoding %x into %v differs at %s: %s\n%v", want, it, s, dump(got), d)
		}
	}
	jn, err := w.encTopJSON(rv)
	if err != nil {
		t.Fatalf("reference: %v", err)
	}
	jo := marshalJSON(w.cdc, asArg(t, rv))
	if m, ok := parseJSON(jo.bz); jo.failed() || !ok || !jn.sameAs(m) {
		t.Fatalf("top-level JSON is %v %s, want %s\n%v", jo, jo.bz, jn.bytes(), d)
	}
	for _, it := range append([]reflect.Type{c.T, reflect.PtrTo(c.T)}, ifaceTypes...) {
		ref, rerr := w.decTopJSON(jo.bz, it)
		got, do := unmarshalJSON(w.cdc, jo.bz, it)
		if rerr == errUnsure {
			continue
		}
		if (rerr != nil) != do.failed() || do.panik != nil {
			t.Fatalf("decoding %s into %v: %v, reference: %v\n%v", jo.bz, it, do, rerr, d)
		}
		if rerr == nil {
			if s := diff(ref, got); s != "" {
				t.Fatalf("decoding %s into %v differs at %s: %s\n%v", jo.bz, it, s, dump(got), d)
			}
		}
	}
}

// checkNames: every way to name a type, registered or not, in every interface.
func checkNames(t *rapid.T) { checkNamesIn(t, true, true) }

func checkNamesIn(t *rapid.T, binary, json bool) {
	w := richWorld(t)
	// A value to go with the name.
	var body []byte
	var who *Conc
	name := ""
	switch pick(t, 6, "name") {
	case 5: // unknown
		name = fmt.Sprintf("unknown/%d", rapid.IntRange(0, 1<<20).Draw(t, "u"))
		body = []byte{0x08, 0x01}
	default:
		who = pickFrom(t, w.concs, "c")
		name = who.Name
		rv := drawValue(t, who.T, newV(w, false))
		body = w.enc(rv, opts{num: 1}, true)
	}
	db, pb := disfix(name)
	var chunk []byte
	form := pick(t, 8, "form")
	switch form {
	case 0, 1:
		chunk = append(chunk, pb[:]...)
	case 2, 3:
		chunk = append(append([]byte{0}, db[:]...), pb[:]...)
	case 4: // wrong disambiguation bytes
		db[pick(t, 3, "i")] ^= 1 << uint(pick(t, 8, "b"))
		chunk = append(append([]byte{0}, db[:]...), pb[:]...)
	case 5: // the disambiguation bytes of another
		x, _ := disfix(pickFrom(t, w.concs, "other").Name)
		chunk = append(append([]byte{0}, x[:]...), pb[:]...)
	case 6: // wrong prefix bytes
		pb[pick(t, 4, "i")] ^= 1 << uint(pick(t, 8, "b"))
		chunk = append(chunk, pb[:]...)
	case 7: // cut
		chunk = append(append([]byte{0}, db[:]...), pb[:]...)
		if pick(t, 2, "short") == 0 {
			chunk = append([]byte{}, pb[:]...)
		}
		chunk = chunk[:pick(t, len(chunk), "cut")]
		body = nil
	}
	full := append(append([]byte{}, chunk...), body...)
	fn := pick(t, 4, "iface")
	var rt reflect.Type
	var bz []byte
	switch pick(t, 3, "where") {
	case 0:
		rt = tof(IfOne{})
		bz = append(key(uint64(fn+1), wBytes), wrap(full)...)
	case 1:
		rt = tof(IfLists{})
		bz = append(key(uint64(fn+1), wBytes), wrap(full)...)
	default:
		rt = ifaceTypes[fn]
		bz = full
		if who != nil && form < 4 {
			// At the top level the value is written as the top-level value.
			rv := drawValue(t, who.T, newV(w, false))
			top, err := w.encTop(rv)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			bz = append(append([]byte{}, chunk...), top[4:]...)
		}
	}
	d := drawn{w, rt, reflect.ValueOf(0)}
	if !binary {
		namesJSON(t, d, who, name, fn)
		return
	}
	want, rerr := w.decTop(bz, rt)
	got, o := unmarshalBin(w.cdc, bz, rt)
	cl := "accepted"
	if rerr != nil {
		cl = "rejected"
	}
	ev.count(len(bz) >= 4, caseFP(rt, bz), func() string { return fmt.Sprintf("%v %q form %d: %x into %v: %v", w, name, form, bz, rt, rerr) }, cl)
	if o.panik != nil || (rerr != nil) != o.failed() {
		t.Fatalf("decoding %x into %v (%q, form %d): %v, reference: %v\n%v", bz, rt, name, form, o, rerr, d)
	}
	if rerr == nil {
		if s := diff(want, got); s != "" {
			t.Fatalf("decoding %x into %v (%q) differs at %s: %s\n%v", bz, rt, name, s, dump(got), d)
		}
	}
	if json {
		namesJSON(t, d, who, name, fn)
	}
}

func namesJSON(t *rapid.T, d drawn, who *Conc, name string, fn int) {
	w, rt := d.w, d.rt
	val := `"1"`
	if who != nil {
		n, err := w.encTopJSON(drawValue(t, who.T, newV(w, true)))
		if err != nil {
			t.Fatalf("reference: %v", err)
		}
		val = string(n.kids[1].bytes())
	}
	jname := name
	if chance(t, 5, "jother") {
		jname = pickFrom(t, []string{"", name + " ", name + "x", "\x00"}, "jn")
	}
	doc := `{"type":` + quoteName(jname) + `,"value":` + val + `}`
	switch pick(t, 8, "jform") {
	case 0:
		doc = `{"value":` + val + `,"type":` + quoteName(jname) + `}`
	case 1:
		doc = `{"type":` + quoteName(jname) + `}`
	case 2:
		doc = `{"value":` + val + `}`
	case 3:
		doc = val
	case 4:
		doc = `{"type":` + quoteName(jname) + `,"value":null}`
	}
	fname := []string{"X", "A", "B", "AB"}[fn]
	switch rt {
	case tof(IfOne{}):
		doc = `{"` + fname + `":` + doc + `}`
	case tof(IfLists{}):
		doc = `{"` + fname + `":[` + doc + `]}`
	}
	jwant, jerr := w.decTopJSON([]byte(doc), rt)
	if jerr == errUnsure {
		return
	}
	ev.count(true, []byte(rt.String()+doc), func() string { return fmt.Sprintf("%v: %s into %v: %v", w, doc, rt, jerr) }, fmt.Sprintf("json-accepted:%v", jerr == nil))
	jgot, jo := unmarshalJSON(w.cdc, []byte(doc), rt)
	if jo.panik != nil || (jerr != nil) != jo.failed() {
		t.Fatalf("decoding %s into %v: %v, reference: %v\n%v", doc, rt, jo, jerr, d)
	}
	if jerr == nil {
		if s := diff(jwant, jgot); s != "" {
			t.Fatalf("decoding %s into %v differs at %s: %s\n%v", doc, rt, s, dump(jgot), d)
		}
	}
}

func checkDisfix(t *rapid.T) {
	var name string
	switch pick(t, 3, "nk") {
	case 0:
		name = rapid.StringN(1, 40, -1).Draw(t, "name")
	case 1:
		names, _ := drawNames(t, 1)
		name = names[0]
	default: // search for hashes with zero bytes
		base := rapid.IntRange(0, 1<<28).Draw(t, "base")
		for i := 0; i < 200; i++ {
			name = fmt.Sprintf("z/%d", base+i)
			db, pb := disfix(name)
			x, y := amino.NameToDisfix(name)
			if db != x || pb != y {
				t.Fatalf("NameToDisfix(%q) = %x %x, want %x %x", name, x, y, db, pb)
			}
		}
	}
	if name == "" {
		return
	}
	db, pb := disfix(name)
	x, y := amino.NameToDisfix(name)
	ev.count(true, []byte(name), func() string { return fmt.Sprintf("%q: %x %x", name, db, pb) })
	if db != x || pb != y || x[0] == 0 || y[0] == 0 {
		t.Fatalf("NameToDisfix(%q) = %x %x, want %x %x", name, x, y, db, pb)
	}
	if !bytes.Equal(x.Bytes(), db[:]) || !bytes.Equal(y.Bytes(), pb[:]) || !y.EqualBytes(pb[:]) || !x.EqualBytes(db[:]) || y.EqualBytes(pb[:3]) {
		t.Fatalf("Bytes/EqualBytes of %q", name)
	}
	if amino.NewPrefixBytes(pb[:]) != y {
		t.Fatalf("NewPrefixBytes of %q", name)
	}
	// As registered.
	cdc := amino.NewCodec()
	cdc.RegisterConcrete(CInt(0), name, nil)
	if bz, err := cdc.MarshalBinaryBare(CInt(0)); err != nil || !bytes.Equal(bz, pb[:]) {
		t.Fatalf("registered as %q: %x %v, want %x", name, bz, err, pb)
	}
}

func TestC05(t *testing.T) {
	run(t, "identity", 6, checkIdentity)
	run(t, "top_level", 5, checkTopConcrete)
	run(t, "names", 12, checkNames)
	run(t, "disfix", 2, checkDisfix)
	run(t, "many", 0.05, checkMany)
}
