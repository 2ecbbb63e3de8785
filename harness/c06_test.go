package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

type (
	regAny struct{ X Any }
	regA   struct{ X IA }
	regB   struct{ X IB }
	regAB  struct{ X IAB }
	regNo  struct{ X INone }
	badFl  struct{ F float64 }
	badMar int
	badUnm int
	badPtr int
)

func (badMar) MarshalAmino() int            { return 0 }
func (*badUnm) UnmarshalAmino(int)          {}
func (badPtr) MarshalAmino() (*int, error)  { return nil, nil }
func (*badPtr) UnmarshalAmino(x *int) error { return nil }

var (
	regWraps = map[reflect.Type]reflect.Type{anyType: tof(regAny{}), iaType: tof(regA{}), ibType: tof(regB{}), iabType: tof(regAB{}), inoneTyp: tof(regNo{})}
	// Types whose encoding involves no other of these types.
	regPool = []reflect.Type{tof(CStruct{}), tof(CSmall{}), tof(CInt(0)), tof(CStr("")), tof(CBytes{}), tof(CArr{}), tof(CList{}), tof(CStrs{}), tof(CBool(false)),
		tof(CU(0)), tof(CRepr{}), tof(CEmpty{}), tof(MyI64s{})}
	regIfaces = []reflect.Type{anyType, iaType, ibType, iabType, inoneTyp}
)

// regModel is what a codec should be like after a history of calls.
type regModel struct {
	w      *World // with the successful registrations
	used   map[reflect.Type]bool
	sealed bool
}

// Types with methods that can't be used.
type (
	badSig1  struct{ N int }
	badSig2  struct{ N int }
	badSig3  struct{ N int }
	badSig4  struct{ N int }
	badSig5  struct{ N int }
	badSig6  struct{ N int }
	badSig7  struct{ N int }
	badSig8  struct{ N int }
	badSig9  struct{ N int }
	badSig10 struct{ N int }
	badSig11 struct{ N int }
	badSig12 struct{ N int }
)

func (badSig10) MarshalAmino() (*int, error)       { panic("never") }
func (*badSig10) UnmarshalAmino(int) error         { panic("never") }
func (badSig11) MarshalAmino() (*Leaf, error)      { panic("never") }
func (*badSig12) UnmarshalAmino(int, ...int) error { panic("never") }

func (badSig1) MarshalAmino(int) (int, error)      { panic("never") }
func (*badSig1) UnmarshalAmino(int) error          { panic("never") }
func (badSig2) MarshalAmino() (int, error, error)  { panic("never") }
func (*badSig2) UnmarshalAmino(int) error          { panic("never") }
func (badSig3) MarshalAmino() (int, string)        { panic("never") }
func (*badSig3) UnmarshalAmino(int) error          { panic("never") }
func (badSig4) MarshalAmino() (int, error)         { panic("never") }
func (*badSig4) UnmarshalAmino(int, int) error     { panic("never") }
func (badSig5) MarshalAmino() (int, error)         { panic("never") }
func (*badSig5) UnmarshalAmino() error             { panic("never") }
func (badSig6) MarshalAmino() (int, error)         { panic("never") }
func (badSig6) UnmarshalAmino(int) bool            { panic("never") }
func (badSig7) MarshalAmino() (int, error)         { panic("never") }
func (*badSig7) UnmarshalAmino(int) (error, error) { panic("never") }
func (badSig8) MarshalAmino() (int, error)         { panic("never") }
func (*badSig8) UnmarshalAmino(*int) error         { panic("never") }
func (badSig9) MarshalAmino() (int, error)         { panic("never") }
func (*badSig9) UnmarshalAmino(int) interface{}    { panic("never") }

var badSigs = []interface{}{badSig1{}, badSig2{}, badSig3{}, badSig4{}, badSig5{}, badSig6{}, badSig7{}, badSig8{}, badSig9{},
	badSig10{}, badSig11{}, badSig12{}}

func (m *regModel) implementersWith(it reflect.Type, more *Conc) []*Conc {
	out := m.w.implementers(it)
	if more != nil && reflect.PtrTo(more.T).Implements(it) {
		out = append(append([]*Conc{}, out...), more)
	}
	return out
}

// conflict: two implementers share a prefix and one isn't in the priority list.
func conflict(impl []*Conc, prio []string) bool {
	in := map[string]bool{}
	for _, p := range prio {
		in[p] = true
	}
	for _, a := range impl {
		for _, b := range impl {
			if a != b && a.Prefix == b.Prefix && !(in[a.Name] && in[b.Name]) {
				return true
			}
		}
	}
	return false
}

func (m *regModel) legalIface(i *Iface) bool {
	return !m.sealed && m.w.ifs[i.T] == nil && !conflict(m.w.implementers(i.T), i.Priority)
}

func (m *regModel) legalConc(c *Conc) bool {
	if m.sealed || m.w.byT[c.T] != nil || m.used[c.T] {
		return false
	}
	for _, d := range m.w.concs {
		if d.Name == c.Name {
			return false
		}
	}
	for it, i := range m.w.ifs {
		if reflect.PtrTo(c.T).Implements(it) && conflict(m.implementersWith(it, c), i.Priority) {
			return false
		}
	}
	return true
}

type failWriter struct{ left int }

var errWrite = errors.New("write error 51c2")

func (f *failWriter) Write(b []byte) (int, error) {
	if f.left < len(b) {
		n := f.left
		f.left = 0
		return n, errWrite
	}
	f.left -= len(b)
	return len(b), nil
}

// glitchWriter fails once, at a byte, and works again afterwards.
type glitchWriter struct {
	at   int
	done bool
}

func (g *glitchWriter) Write(b []byte) (int, error) {
	if !g.done && g.at < len(b) {
		g.done = true
		return g.at, errWrite
	}
	g.at -= len(b)
	return len(b), nil
}

func (m *regModel) checkPrint(t *rapid.T) string {
	var b bytes.Buffer
	if err := m.w.cdc.PrintTypes(&b); err != nil {
		return "PrintTypes: " + err.Error()
	}
	lines := strings.Split(strings.TrimSuffix(b.String(), "\n"), "\n")
	if len(lines) != len(m.w.concs)+2 {
		return fmt.Sprintf("PrintTypes has %d rows, want %d:\n%s", len(lines)-2, len(m.w.concs), b.String())
	}
	for i, c := range m.w.concs {
		var cols []string
		for _, x := range strings.Split(lines[i+2], "|") {
			cols = append(cols, strings.TrimSpace(x))
		}
		if len(cols) < 5 || cols[1] != c.T.Name() || cols[2] != c.Name || cols[3] != fmt.Sprintf("0x%X", c.Prefix) {
			return fmt.Sprintf("row %q, want %s %s 0x%X", lines[i+2], c.T.Name(), c.Name, c.Prefix)
		}
	}
	n := b.Len()
	for _, k := range []int{0, 1, n / 3, n / 2, n - 1, pick(t, n, "print"), pick(t, n, "print"), pick(t, n, "print")} {
		if err := m.w.cdc.PrintTypes(&failWriter{k}); !errors.Is(err, errWrite) && err != io.ErrShortWrite {
			return fmt.Sprintf("PrintTypes to a writer that fails after %d of %d bytes: %v", k, n, err)
		}
		if err := m.w.cdc.PrintTypes(&glitchWriter{at: k}); !errors.Is(err, errWrite) && err != io.ErrShortWrite {
			return fmt.Sprintf("PrintTypes to a writer that fails once at byte %d of %d: %v", k, n, err)
		}

	}
	return ""
}

// probe compares the codec with the model.
func (m *regModel) probe(t *rapid.T, hist string, names []string) {
	w := m.w
	if s := m.checkPrint(t); s != "" {
		t.Fatalf("%s\n%s", s, hist)
	}
	for _, it := range regIfaces {
		wt := regWraps[it]
		zero := reflect.New(wt).Elem()
		zo := marshalBin(w.cdc, zero.Interface())
		if (w.ifs[it] == nil) != zo.failed() {
			t.Fatalf("encoding a nil %v: %v\n%s", it, zo, hist)
		}
		if w.ifs[it] == nil {
			continue
		}
		for _, c := range w.concs {
			if !reflect.PtrTo(c.T).Implements(it) {
				continue
			}
			rv := reflect.New(wt).Elem()
			p := reflect.New(c.T)
			fillValue(t, p.Elem(), newV(w, true))
			rv.Field(0).Set(p)
			want, err := w.encTop(rv)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			o := marshalBin(w.cdc, rv.Interface())
			if o.failed() || !bytes.Equal(o.bz, want) {
				t.Fatalf("%v in %v encodes as %v, want %x\n%s", c.form(), it, o, want, hist)
			}
			ref, rerr := w.decTop(want, wt)
			got, do := unmarshalBin(w.cdc, want, wt)
			if (rerr != nil) != do.failed() || do.panik != nil {
				t.Fatalf("decoding %x into %v: %v, want %v\n%s", want, wt, do, rerr, hist)
			}
			if rerr == nil {
				if s := diff(ref, got); s != "" {
					t.Fatalf("decoding %x into %v differs at %s\n%s", want, wt, s, hist)
				}
			}
			n, err := w.encTopJSON(rv)
			if err != nil {
				t.Fatalf("reference: %v", err)
			}
			jo := marshalJSON(w.cdc, rv.Interface())
			if j, ok := parseJSON(jo.bz); jo.failed() || !ok || !n.sameAs(j) {
				t.Fatalf("%v in %v: JSON %v %s, want %s\n%s", c.form(), it, jo, jo.bz, n.bytes(), hist)
			}
			top := marshalBin(w.cdc, p.Interface())
			tw, _ := w.encTop(p.Elem())
			if top.failed() || !bytes.Equal(top.bz, tw) {
				t.Fatalf("%v encodes as %v, want %x\n%s", c.T, top, tw, hist)
			}
		}
		// Names, registered or not.
		for _, name := range names {
			db, pb := disfix(name)
			for _, chunk := range [][]byte{pb[:], append(append([]byte{0}, db[:]...), pb[:]...)} {
				bz := append(key(1, wBytes), wrap(chunk)...)
				_, rerr := w.decTop(bz, wt)
				_, o := unmarshalBin(w.cdc, bz, wt)
				if o.panik != nil || (rerr != nil) != o.failed() {
					t.Fatalf("decoding %x (%s) into %v: %v, want %v\n%s", bz, name, wt, o, rerr, hist)
				}
			}
			doc := []byte(`{"X":{"type":` + quoteName(name) + `,"value":null}}`)
			_, rerr := w.decTopJSON(doc, wt)
			_, o := unmarshalJSON(w.cdc, doc, wt)
			if rerr != errUnsure && (o.panik != nil || (rerr != nil) != o.failed()) {
				t.Fatalf("decoding %s into %v: %v, want %v\n%s", doc, wt, o, rerr, hist)
			}
		}
	}
}

func checkHistory(t *rapid.T) {
	names, _ := drawNames(t, 6)
	for i, s := range names {
		if strings.ContainsAny(s, "|\n") || strings.TrimSpace(s) != s {
			names[i] = fmt.Sprintf("plain/%d", i)
		}
	}
	m := &regModel{w: emptyWorld(), used: map[reflect.Type]bool{}}
	hist := ""
	rejected, accepted, uses := 0, 0, 0
	attempt := func(what string, legal bool, f func()) bool {
		o := try(func() ([]byte, error) { f(); return nil, nil })
		hist += fmt.Sprintf("%s: %v\n", what, o)
		if (o.panik == nil) != legal {
			t.Fatalf("%s: legal %v, but %v\nhistory:\n%s", what, legal, o, hist)
		}
		if legal {
			accepted++
		} else {
			rejected++
		}
		return legal
	}
	n := 2 + pick(t, 14, "steps")
	for i := 0; i < n; i++ {
		switch pick(t, 16, "step") {
		case 0, 1, 2, 3, 4, 5: // a concrete type
			ct := pickFrom(t, regPool, "ct")
			c := newConc(ct, pick(t, 2, "ptr") == 1, pickFrom(t, names, "name"))
			if attempt(fmt.Sprintf("RegisterConcrete(%v, %q)", c.form(), c.Name), m.legalConc(c), func() { (regStep{c: c}).apply(m.w.cdc) }) {
				m.w.ord = append(m.w.ord, regStep{c: c})
				m.w.concs = append(m.w.concs, c)
				m.w.byT[ct] = c
			}
		case 6, 7, 8, 9: // an interface
			ifc := &Iface{T: pickFrom(t, regIfaces, "it"), Always: pick(t, 3, "always") == 2}
			switch pick(t, 3, "prio") {
			case 1:
				ifc.Priority = names
			case 2:
				for _, s := range names {
					if pick(t, 2, "in") == 1 {
						ifc.Priority = append(ifc.Priority, s)
					}
				}
			}
			if attempt(fmt.Sprintf("RegisterInterface(%v, %v %q)", ifc.T, ifc.Always, ifc.Priority), m.legalIface(ifc), func() { (regStep{i: ifc}).apply(m.w.cdc) }) {
				m.w.ord = append(m.w.ord, regStep{i: ifc})
				m.w.ifs[ifc.T] = ifc
			}
		case 10: // never legal
			cdc := m.w.cdc
			name := pickFrom(t, names, "name")
			k := pick(t, 16+len(badSigs), "illegal")
			attempt(fmt.Sprintf("illegal registration %d as %q", k, name), false, func() {
				switch k {
				case 0:
					x := &CStruct{}
					cdc.RegisterConcrete(&x, name, nil)
				case 1:
					cdc.RegisterConcrete(new(IA), name, nil)
				case 2:
					cdc.RegisterConcrete(nil, name, nil)
				case 3:
					cdc.RegisterInterface(CStruct{}, nil)
				case 4:
					cdc.RegisterInterface(&CStruct{}, nil)
				case 5:
					cdc.RegisterInterface(nil, nil)
				case 6:
					cdc.RegisterConcrete(badFl{}, name, nil)
				case 7:
					cdc.RegisterConcrete(badMar(0), name, nil)
				case 8:
					cdc.RegisterConcrete(badUnm(0), name, nil)
				case 9:
					cdc.RegisterConcrete(badPtr(0), name, nil)
				case 10:
					cdc.RegisterConcrete((*badFl)(nil), name, nil)
				case 11:
					var x IA = CInt(1)
					px := &x
					cdc.RegisterConcrete(px, name, nil)
				case 12:
					cdc.RegisterInterface([]IA(nil), nil)
				case 13:
					cdc.RegisterInterface(map[string]IA{}, nil)
				case 14:
					cdc.RegisterInterface([2]IA{}, nil)
				case 15:
					cdc.RegisterInterface(make(chan IA), nil)
				default: // methods of another form
					x := badSigs[k-16]
					if pick(t, 2, "ptr") == 1 {
						p := reflect.New(reflect.TypeOf(x))
						x = p.Interface()
					}
					cdc.RegisterConcrete(x, name, nil)
				}
			})
		case 11:
			if pick(t, 3, "seal") == 0 {
				if m.w.cdc.Seal() != m.w.cdc {
					t.Fatalf("Seal returns another codec")
				}
				m.sealed = true
				hist += "Seal\n"
			}
		case 12, 13: // use a type, registered or not
			ct := pickFrom(t, regPool, "ct")
			rv := drawValue(t, ct, newV(m.w, true))
			var o outcome
			k := pick(t, 6, "how")
			if k == 5 && m.w.byT[ct] == nil {
				k = 0 // it is open whether that would count as use
			}
			switch k {
			case 0:
				o = marshalBin(m.w.cdc, asArg(t, rv))
				want, _ := m.w.encTop(rv)
				if o.failed() || !bytes.Equal(o.bz, want) {
					t.Fatalf("%v encodes as %v, want %x\n%s", ct, o, want, hist)
				}
			case 1:
				if o = marshalJSON(m.w.cdc, rv.Interface()); o.failed() {
					t.Fatalf("JSON of %v: %v\n%s", ct, o, hist)
				}
			case 2:
				bz, _ := m.w.encTop(rv)
				_, o = unmarshalBin(m.w.cdc, bz, ct)
				if o.failed() {
					t.Fatalf("decoding %x into %v: %v\n%s", bz, ct, o, hist)
				}
			case 3:
				unmarshalBin(m.w.cdc, soup(t), reflect.PtrTo(ct))
			case 4:
				unmarshalJSON(m.w.cdc, []byte("null"), ct)
			case 5: // as an element
				marshalBin(m.w.cdc, reflect.MakeSlice(reflect.SliceOf(ct), 1, 1).Interface())
			}
			if k < 5 {
				m.used[ct] = true
			}
			uses++
			hist += fmt.Sprintf("use of %v (%d)\n", ct, k)
		case 14: // an unregistered type in a registered interface
			it := pickFrom(t, regIfaces, "it")
			ct := pickFrom(t, regPool, "ct")
			if m.w.ifs[it] == nil || m.w.byT[ct] != nil || !reflect.PtrTo(ct).Implements(it) {
				continue
			}
			rv := reflect.New(regWraps[it]).Elem()
			rv.Field(0).Set(reflect.New(ct))
			if o := marshalBin(m.w.cdc, rv.Interface()); !o.failed() {
				t.Fatalf("unregistered %v in %v: %v\n%s", ct, it, o, hist)
			}
			m.used[ct] = true
			hist += fmt.Sprintf("unregistered %v in %v\n", ct, it)
		case 15:
			m.probe(t, hist, names[:2])
		}
	}
	m.probe(t, hist, names)
	ev.count(rejected > 0 && accepted > 0, []byte(hist), func() string { return hist }, fmt.Sprintf("sealed:%v", m.sealed), fmt.Sprintf("accepted:%d", accepted), fmt.Sprintf("rejected:%d", rejected), fmt.Sprintf("uses:%d", uses))
}

func TestC06(t *testing.T) {
	run(t, "histories", 5, checkHistory)
	run(t, "many", 0.05, checkMany)
}
